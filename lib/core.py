"""One check: stages that drive the real code, TLC that judges what it did."""
import json
import multiprocessing as mp
import os
import sys
import time

import gen
import proj
import svgc

VERIF = svgc.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


def given(args):
    """option list -> ({name: value}, no-defaults?)"""
    g, nd = {}, False
    for a in args:
        if a == '--no-defaults':
            nd = True
        elif a.startswith('--') and '=' in a:
            k, v = a[2:].split('=', 1)
            g[k] = v
    return g, nd


def clean_event(f, t, args, q, st='ok'):
    g, nd = given(args)
    return {'a': 'Clean', 'f': f, 't': t, 'g': g, 'nd': nd, 'q': list(q), 'st': st}


def refuse_event(f, st):
    return {'a': 'Refuse', 'f': f, 't': f, 'g': {}, 'nd': False, 'q': [], 'st': st}


def crash_event(f, st):
    return {'a': 'Crash', 'f': f, 't': f, 'g': {}, 'nd': False, 'q': [], 'st': st}


def tolerance(text, args):
    loose = any(k in text for k in ('rotate', 'skew', 'matrix', ' 30 ', '%'))
    t = 400 if loose else 30
    return t


def make_record(rid, job, res, q, pic=True, tol=None):
    """A behaviour of the cleaner for one document (None: not in the specified language)."""
    mode, args, text = job
    st, out = res
    try:
        d1 = proj.parse(text)
    except proj.NotXml:
        return None
    if d1['misc'].get('css_unsupported'):
        return None
    docs = [proj.slim(d1)]
    if st == 'ok':
        try:
            docs.append(proj.slim(proj.parse(out), ns='ns' not in q or proj.ns_ok(out)))
            ev = clean_event(1, 2, args, q)
        except proj.NotXml as e:
            ev = crash_event(1, 'the output is not well-formed XML: %s' % e)
    elif st in ('parse', 'clean'):
        ev = refuse_event(1, out[:200])
    else:
        ev = crash_event(1, '%s: %s' % (st, out[:200]))
    return {'id': rid, 'pic': bool(pic and 'picture' in q), 'tol': tol or tolerance(text, args), 'd': docs, 'e': [ev]}


def history_record(rid, texts, events, pic, tol, alltext=False):
    """A behaviour over several documents; events refer to texts by index (1-based).
    A text that is not XML turns the event that produced it into a crash."""
    docs = []
    bad = {}
    for i, t in enumerate(texts):
        try:
            d = proj.parse(t)
        except proj.NotXml as e:
            if i == 0:
                return None
            bad[i + 1] = str(e)
            docs.append(docs[0])
            continue
        if i == 0 and d['misc'].get('css_unsupported'):
            return None
        docs.append(proj.slim(d, alltext=alltext, ns=i == 0 or proj.ns_ok(t)))
    ev = []
    for e in events:
        b = e.get('t') if e.get('t') in bad else None
        ev.append(crash_event(1, 'the output is not well-formed XML: ' + bad[b]) if b else e)
    return {'id': rid, 'pic': pic, 'tol': tol, 'd': docs, 'e': ev}


def _mk(a):
    try:
        if a[0] == 'history':
            return history_record(*a[1:])
        return make_record(*a)
    except Exception as e:      # noqa: a lexer problem is a machinery problem, reported as such
        return ('error', a[0], repr(e))


def make_records(rows):
    """rows: (id, job, result, clauses)"""
    with mp.Pool(svgc.JOBS) as pool:
        out = pool.map(_mk, rows, chunksize=64)
    return out


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cases = {}            # id -> (mode, args, text)
        self.viol = []             # (case id, clause, info)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.problems = []
        self.statuses = {}
        self.budget = float(os.environ.get('VERIF_BUDGET', '420' if TIER == 'quick' else '780'))
        self.scale = 1 if TIER == 'quick' else float(os.environ.get('VERIF_SCALE', '6'))
        self.findings = load_findings(pid)
        self.known = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- documents through the real cleaner, judged by spec/Cleaner.tla
    def documents(self, stage, jobs, q, tol=None, only=None):
        """jobs: [(args, text)]; every clause of q is checked on every run"""
        if self.left() < 20:
            self.extra['skipped ' + stage] = len(jobs)
            return []
        jl = [('clean', list(a), t) for a, t in jobs]
        res = svgc.run_jobs(jl)
        rows = []
        for i, (j, r) in enumerate(zip(jl, res)):
            cid = '%s-%d' % (stage, i)
            self.cases[cid] = j
            k = stage + ':' + r[0]
            self.statuses[k] = self.statuses.get(k, 0) + 1
            rows.append((cid, j, r, q) if tol is None else (cid, j, r, q, True, tol))
        recs = []
        for x in make_records(rows):
            if isinstance(x, tuple):
                self.problems.append('%s: %s' % (x[1], x[2]))
            elif x is not None:
                recs.append(x)
        self.judge(stage, recs)
        return res

    def judge(self, stage, recs, module='Cleaner'):
        v = svgc.validate(recs, module=module, deadline=self.t0 + self.budget + 120)
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.consumed
        for rid, msg in v.errors:
            self.problems.append('%s: TLC: %s' % (rid, msg))
        for b in v.bad:
            self.viol.append((b['rec'], b['clause'], b['info']))
        if recs and len(self.samples) < 6:
            c = self.cases.get(recs[0]['id'])
            if c:
                self.samples.append({'stage': stage, 'options': c[1], 'input': c[2][:600]})
        self.extra[stage] = {'behaviours': len(recs), 'consumed_by_tlc': v.consumed, 'violating': len(v.bad)}
        return v

    def histories(self, stage, rows, module='Cleaner'):
        """rows: (id, case, texts, events, pic, tol[, alltext])"""
        todo = []
        for r in rows:
            self.cases[r[0]] = r[1]
            todo.append(('history', r[0]) + tuple(r[2:]))
        recs = []
        for x in make_records(todo):
            if isinstance(x, tuple):
                self.problems.append('%s: %s' % (x[1], x[2]))
            elif x is not None:
                recs.append(x)
        return self.judge(stage, recs, module)

    # ---- histories of requests and answers, judged by spec/Process.tla
    def process(self, stage, batches):
        """batches: [(cases, events)]; events refer to cases by index (1-based)"""
        recs = []
        for i, (cases, ev) in enumerate(batches):
            rid = '%s-%d' % (stage, i)
            for k, j in enumerate(cases):
                self.cases['%s/%d' % (rid, k + 1)] = j
            for e in ev:
                k = stage + ':' + (e['st'] if e['a'] == 'Answer' else e['a'])
                self.statuses[k] = self.statuses.get(k, 0) + 1
            recs.append({'id': rid, 'n': len(cases), 'e': ev})
        v = svgc.validate(recs, module='Process', deadline=self.t0 + self.budget + 120)
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.consumed
        for rid, msg in v.errors:
            self.problems.append('%s: TLC: %s' % (rid, msg))
        for b in v.bad:
            self.viol.append(('%s/%d' % (b['rec'], b['c']), b['clause'], b['info']))
        if batches and len(self.samples) < 6:
            c = batches[0][0][0]
            self.samples.append({'stage': stage, 'options': c[1], 'input': c[2][:600]})
        self.extra[stage] = {'histories': len(recs), 'answers': sum(len(e) for _, e in batches), 'consumed_by_tlc': v.consumed,
                             'violating': len(v.bad)}
        return v

    # ---- an exhaustive TLC run of a model
    def model(self, stage, module, cfg=None, envv=None, mem='3g', timeout=600, workers=None, optional=False):
        rc, out = svgc.tlc(module, cfg=cfg, envv=envv, mem=mem, timeout=timeout, workers=workers or svgc.JOBS)
        m = svgc.STATES.search(out)
        gen_, dis = (int(x.replace(',', '')) for x in m.groups()) if m else (0, 0)
        self.states += dis
        self.transitions += gen_
        self.extra[stage] = {'module': module, 'distinct_states': dis, 'generated': gen_, 'rc': rc}
        # (a search that is cut off at its time decides on what it reached)
        if rc != 0 and not (optional and rc == -9):
            self.problems.append('%s: TLC rc=%s: %s' % (stage, rc, tail(out)))
        return out

    def violation(self, cid, clause, info=''):
        self.viol.append((cid, clause, info))

    # ---- outcome
    def finish(self):
        rdir = os.path.join(VERIF, 'replay', self.pid)
        n = 0
        seen = set()
        new = []
        for cid, clause, info in self.viol:
            case = self.cases.get(cid)
            key = finding_of(self.findings, case, clause)
            if key:
                if key not in self.known:
                    self.known.append(key)
                continue
            new.append((cid, clause, info, case))
        for cid, clause, info, case in new:
            if n < 10 and (cid, clause) not in seen:
                seen.add((cid, clause))
                os.makedirs(rdir, exist_ok=True)
                p = os.path.join(rdir, '%s-%s.json' % (cid.replace('/', '_'), clause.replace('/', '_')))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'clause': clause, 'info': info, 'case': case}, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  clause %s: %s' % (clause, json.dumps(info)[:300]))
                n += 1
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6] or [{'none': True}], outcomes=self.statuses, stages=self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for p in self.problems[:5]:
            print('MACHINERY: ' + p[:600])
        print('%s %s: %d behaviours, %d states, %d violations, %d known, %.1fs' %
              (self.pid, TIER, self.traces, self.states, len(new), len(self.known), time.time() - self.t0))
        if new:
            return 1
        return 2 if self.problems else 0


def tail(out):
    ls = [l for l in out.splitlines() if l.strip()]
    i = next((i for i, l in enumerate(ls) if l.startswith('Error')), max(0, len(ls) - 12))
    return ' | '.join(ls[i:i + 14])[:1500]


# ---------------------------------------------------------------- findings
def load_findings(pid):
    """known_findings.txt: `finding: property=<id> clause=<clause> file=<path under findings/> args=<...> <what>`"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return res
    for line in open(p):
        line = line.strip()
        if not line.startswith('finding: property=%s ' % pid):
            continue
        f = line.split(' ', 5)
        d = dict(x.split('=', 1) for x in f[1:5])
        d['what'] = f[5] if len(f) > 5 else ''
        d['text'] = open(os.path.join(VERIF, 'findings', d['file'])).read()
        d['argv'] = [a for a in d['args'].split(',') if a and a != '-']
        res.append(d)
    return res


def finding_of(findings, case, clause):
    if not case:
        return None
    for d in findings:
        if d['clause'] == clause and d['text'] == case[2] and d['argv'] == list(case[1]):
            return '%s (%s)' % (d['what'], d['file'])
    return None


def gen_docs(stage, n, **prof):
    return [gen.document('%s/%d/%d' % (stage, SEED, i), **prof) for i in range(int(n))]
