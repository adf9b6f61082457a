"""Replay of the terminal states of spec/Cli.tla against the real executable."""
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading
import queue

import svgc
from svgc import BINARY, JOBS

CASE = 'CASE '


def parse_cases(out):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"CASE {'):
            res.append(json.loads(json.loads(line)[len(CASE):]))
    return res


REFUSED = [
    '<svg xmlns="http://www.w3.org/2000/svg"><script>a()</script><rect width="10" height="10"/></svg>',
    '<svg xmlns="http://www.w3.org/2000/svg"><rect width="10" height="10"><animate attributeName="x" to="5"/></rect></svg>',
    '<svg xmlns="http://www.w3.org/2000/svg" onload="a()"><rect width="10" height="10"/></svg>',
    '<svg xmlns="http://www.w3.org/2000/svg"><g systemLanguage="en"><rect width="10" height="10"/></g></svg>',
    '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><use xlink:href="o.svg#a"/></svg>',
    '<svg xmlns="http://www.w3.org/2000/svg"><rect fill="inherit" width="10" height="10"/></svg>',
]
UNPARSABLE = ['', ' ', 'plain text', '<g/>', '<?xml version="1.0"?>', '<!-- c -->', '<svg xmlns="http://www.w3.org/2000/svg"><path d="M 0 0 L 5 5"/',
              '<svg xmlns="http://www.w3.org/2000/svg" width="1&',
              '<svg xmlns="http://www.w3.org/2000/svg"><rect fill="url(#a)" stroke="#zz"/></svg>']
NONTEXT = [b'\xff\xfe<svg/>', b'<svg xmlns="http://www.w3.org/2000/svg"><title>\xe9</title></svg>', bytes(range(128, 256))]


def clean_text(text, args, multi):
    """What the library makes of a text under options (the multipass loop written out)."""
    prev, cur, seen = 1 << 60, text, 0
    while True:
        st, out = svgc.run_jobs([('clean', args, cur)], workers=1)[0]
        if st != 'ok':
            return None
        if not multi:
            return out
        n = len(out.encode('utf-8'))
        seen += 1
        if n >= prev or seen > 60:
            return out
        prev, cur = n, out


def pool(seed, gen_docs):
    """{kind: [(bytes, base args)]}; sizes just below, at and just above the input size included"""
    rnd = random.Random(seed)
    p = {k: [] for k in ('shrinks', 'equal', 'grows')}
    sets = [[], ['--no-defaults'], ['--indent=2'], ['--no-defaults', '--indent=4'], ['--no-defaults', '--remove-comments=yes', '--trim-colors=yes']]
    jobs = []
    for i, d in enumerate(gen_docs):
        a = sets[i % len(sets)]
        t = d
        if i % 3 == 0:     # several bytes per character, so that characters and bytes are not the same count
            t = t.replace('</svg>', '<text>\u044f\u0444 \u20ac\U0001f600</text></svg>', 1) if t.rstrip().endswith('</svg>') and t.count('</svg>') == 1 else t
        jobs.append(('clean', a, t))
    r1 = svgc.run_jobs(jobs)
    jobs2 = [('clean', j[1], r[1]) for j, r in zip(jobs, r1) if r[0] == 'ok']
    r2 = svgc.run_jobs(jobs2)
    for j, r in zip(jobs, r1):
        if r[0] == 'ok':
            k = 'grows' if len(r[1].encode()) > len(j[2].encode()) else 'shrinks' if len(r[1].encode()) < len(j[2].encode()) else 'equal'
            p[k].append((j[2], j[1]))
    for j, r in zip(jobs2, r2):
        x = j[2]
        if r[0] != 'ok' or r[1] != x:
            continue
        p['equal'].append((x, j[1]))
        # one byte more than its cleaned form
        if not any('indent' in a for a in j[1]) and '<svg' in x:
            i = x.index('<svg') + 4
            p['shrinks'].append((x[:i] + ' ' + x[i:], j[1]))
        # the cleaned form of this text is longer by a few bytes, down to one
        if '\n' in x and any('indent' in a for a in j[1]):
            y = x.replace('\n', '', 1)
            p['grows'].append((y, j[1]))
    # very small and large ones
    p['equal'].append(('<svg/>', []))
    big = '<svg xmlns="http://www.w3.org/2000/svg">%s</svg>' % ''.join(
        '<rect x="%d" y="%d" width="10.0" height="20.00" fill="#%06x"/>' % (i, i * 2, i * 977 % 0xffffff) for i in range(3000))
    p['shrinks'].append((big, []))
    for k in p:
        rnd.shuffle(p[k])
    return p


def kind_ok(text, out):
    a, b = len(text.encode()), len(out.encode())
    return 'grows' if b > a else 'shrinks' if b < a else 'equal'


BAD_ARGS = {'badvalue': '--indent=9', 'badprec': '--coordinates-precision=13', 'badflag': '--trim-paths=maybe', 'unknown': '--no-such-option'}
BAD_COMBO = {'badcombo1': ['--trim-paths=no', '--join-arcto-flags=yes'],
             'badcombo2': ['--paths-to-relative=no', '--remove-unused-segments=yes', '--convert-segments=no', '--apply-transform-to-paths=no'],
             'badcombo3': ['--paths-to-relative=no', '--remove-unused-segments=no', '--convert-segments=yes', '--apply-transform-to-paths=no'],
             'badcombo4': ['--paths-to-relative=no', '--remove-unused-segments=no', '--convert-segments=no', '--apply-transform-to-paths=yes']}
OLD = b'previous content of the output file\n'


def argv(form, inn, outn):
    return {'file': [inn, outn], 'upper': [inn, outn], 'same': [inn, inn], 'alias': [inn, './' + inn], 'link': [inn, outn],
            'stdout': ['-c', inn], 'stdoutlong': [inn, '--stdout'], 'stdoutout': ['-c', inn, outn], 'stdio': ['-c', '-'],
            'tofile': [outn, '-'], 'nodir': [inn, outn], 'outdir': [inn, outn], 'badext': [inn, outn], 'badoutext': [inn, outn],
            'noout': [inn], 'noargs': []}.get(form, [inn, outn])


def run_case(case, text, base, work):
    """Materialize one terminal state's configuration and run the tool.  text: bytes"""
    c = case['c']
    d = tempfile.mkdtemp(dir=work)
    try:
        form = c['form']
        inn = {'upper': 'IN.SVG', 'badext': 'in.txt'}.get(form, 'in.svg')
        outn = {'upper': 'OUT.SVG', 'badoutext': 'out.txt', 'nodir': 'nodir/out.svg', 'outdir': 'd.svg', 'link': 'link.svg'}.get(form, 'out.svg')
        stdin = b''
        if form in ('stdio', 'tofile'):
            stdin = text
        elif c['kind'] == 'dir':
            os.mkdir(os.path.join(d, inn))
        elif c['kind'] != 'absent':
            with open(os.path.join(d, inn), 'wb') as f:
                f.write(text)
        if form == 'link':
            os.symlink(inn, os.path.join(d, outn))
        elif form == 'outdir':
            os.mkdir(os.path.join(d, outn))
        elif c['old'] == 'old' and form not in ('nodir',):
            with open(os.path.join(d, outn), 'wb') as f:
                f.write(OLD)
        a = list(base)
        if form in BAD_ARGS:
            a.append(BAD_ARGS[form])
        a += BAD_COMBO.get(form, [])
        for k, o in (('copy', '--copy-on-error'), ('bigger', '--allow-bigger-file'), ('nl', '--append-newline=yes'),
                     ('quiet', '--quiet'), ('multi', '--multipass')):
            if c[k]:
                a.append(o)
        a += argv(form, inn, outn)
        try:
            p = subprocess.run([BINARY] + a, cwd=d, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        except subprocess.TimeoutExpired:
            return a, {'crash': 'timeout'}

        def state(n):
            q = os.path.join(d, n)
            if os.path.isdir(q):
                return ('dir', b'') if not os.listdir(q) else ('dir+', b'')
            if not os.path.exists(q):
                return ('none', b'')
            with open(q, 'rb') as f:
                return ('file', f.read())
        files = set(os.listdir(d)) - {inn, outn}
        return a, {'in': state(inn), 'out': state(outn), 'stdout': p.stdout, 'rc': p.returncode, 'stderr': p.stderr.decode('utf-8', 'replace'),
                   'extra': sorted(files), 'link': form != 'link' or os.path.islink(os.path.join(d, outn))}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(case, got, text, clean):
    """Classify what was observed into the abstract values of the specification."""
    def cls(b):
        vals = []
        if clean is not None:
            if b == clean:
                vals.append('clean')
            if b == clean + b'\n':
                vals.append('clean+nl')
        if b == text:
            vals.append('input')
        if b == OLD:
            vals.append('old')
        return vals or ['?']

    def f(x):
        if x[0] in ('none', 'dir', 'dir+'):
            return [x[0]]
        return cls(x[1])
    out = [''] if got['stdout'] == b'' else cls(got['stdout'])
    # clap prints errors and its usage on stderr; warnings and the summary are not errors
    lines = [l for l in got['stderr'].splitlines() if l.strip() and not l.startswith('Warning:')]
    stats = any(l.startswith('Your image is') for l in lines)
    err = any(not l.startswith('Your image is') for l in lines)
    return {'in': f(got['in']), 'out': f(got['out']), 'stdout': out, 'err': err, 'stats': stats}


def mismatch(case, got, text, clean):
    if 'crash' in got:
        return 'crash', got['crash']
    if got['rc'] < 0 or got['rc'] == 101:
        return 'crash', got['stderr'][:300]
    o = observe(case, got, text, clean)
    form = case['c']['form']
    if form in ('stdio', 'tofile'):
        o['in'] = ['none'] if got['in'][0] == 'none' else o['in']
    if got['extra']:
        return 'other-files', got['extra']
    if not got['link']:
        return 'link-replaced', ''
    exp = {k: case[k] for k in ('in', 'out', 'stdout', 'err', 'stats')}
    if form in ('same', 'alias', 'stdout', 'stdoutlong', 'stdio', 'noargs', 'noout') or form == 'link':
        # there is no second file
        if form == 'link':
            o['out'] = ['none'] if o['out'] == o['in'] else o['out']
        elif form in ('same', 'alias'):
            o['out'] = [case['out']]
    for k in ('in', 'out', 'stdout'):
        if exp[k] not in o[k]:
            return 'cli-' + k, 'expected %s, found %s' % (exp[k], o[k])
    for k in ('err', 'stats'):
        if exp[k] != o[k]:
            return 'cli-' + k, 'expected %s, stderr: %s' % (exp[k], got['stderr'][:200])
    return None


def replay(c, cases, docs, seed):
    """Run every case; report to check c."""
    p = pool(seed, docs)
    rnd = random.Random('%s-cli' % seed)
    work = tempfile.mkdtemp(prefix='cli-')
    # texts cleaned once per (text, args, multi)
    plan, want = [], {}
    for i, case in enumerate(cases):
        k = case['c']['kind']
        if k in p:
            t, base = p[k][(i * 7 + rnd.randrange(3)) % len(p[k])]
            key = (t, tuple(base), case['c']['multi'])
            want.setdefault(key, None)
            plan.append((case, t.encode(), base, key))
        elif k == 'refused':
            plan.append((case, REFUSED[i % len(REFUSED)].encode(), [], None))
        elif k == 'unparsable':
            plan.append((case, UNPARSABLE[i % len(UNPARSABLE)].encode(), [], None))
        elif k == 'nontext':
            plan.append((case, NONTEXT[i % len(NONTEXT)], [], None))
        else:
            plan.append((case, b'', [], None))
    keys = list(want)
    q = queue.Queue()
    for k in keys:
        q.put(k)

    def clean_loop():
        w = svgc.Worker()
        while True:
            try:
                k = q.get_nowait()
            except queue.Empty:
                break
            prev, cur, n, passes = 1 << 60, k[0], -1, 0
            while True:
                st, out = w.run('clean', list(k[1]) + ['in.svg', 'out.svg'], cur, 20)
                if st != 'ok':
                    out = None
                    break
                passes += 1
                n = len(out.encode())
                if not k[2] or n >= prev or passes > 60:
                    break
                prev, cur = n, out
            want[k] = out
        w.stop()
    run_threads(clean_loop)
    for i in range(len(plan)):
        q.put(i)
    res = [None] * len(plan)

    def loop():
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            case, text, base, key = plan[i]
            clean = None
            if key is not None:
                if want[key] is None:
                    continue
                clean = want[key].encode()
                # the result of several passes may have another size than that of one
                if kind_ok(key[0], want[key]) != case['c']['kind']:
                    continue
            a, got = run_case(case, text, base, work)
            m = mismatch(case, got, text, clean)
            if m and m[0] == 'crash':      # once more: the machine may be busy
                a, got = run_case(case, text, base, work)
                m = mismatch(case, got, text, clean)
            res[i] = (a, m)
    run_threads(loop)
    shutil.rmtree(work, ignore_errors=True)
    done = 0
    kinds = {}
    for i, (pl, r) in enumerate(zip(plan, res)):
        if r is None:
            continue
        done += 1
        kinds[pl[0]['c']['kind']] = kinds.get(pl[0]['c']['kind'], 0) + 1
        if r[1]:
            cid = 'cli-%d' % i
            c.cases[cid] = ('cli', r[0], pl[1].decode('utf-8', 'replace'))
            c.violation(cid, r[1][0], {'config': pl[0]['c'], 'info': r[1][1]})
    c.traces += done
    c.extra['replayed'] = {'terminal_states': len(cases), 'run': done, 'kinds': kinds}


def run_threads(f):
    ts = [threading.Thread(target=f) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def multipass(jobs, timeout=20):
    """jobs: [(args, text)] -> [(st, output text)] of the executable in multipass mode"""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def loop():
        d = tempfile.mkdtemp(prefix='svgc-mp-')
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                a, t = jobs[i]
                inn, out = os.path.join(d, 'in.svg'), os.path.join(d, 'out.svg')
                with open(inn, 'wb') as f:
                    f.write(t.encode('utf-8'))
                if os.path.exists(out):
                    os.unlink(out)
                try:
                    subprocess.run([BINARY, '--multipass', '--allow-bigger-file', '--quiet'] + list(a) + [inn, out], stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
                except subprocess.TimeoutExpired:
                    res[i] = ('hung', '')
                    continue
                if os.path.exists(out):
                    with open(out, 'rb') as f:
                        res[i] = ('ok', f.read().decode('utf-8', 'replace'))
                else:
                    res[i] = ('none', '')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=loop) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def execute(jobs, timeout=20):
    """jobs: [(via, args, bytes)], via in file, stdin, stdout -> [(st, text)] of the executable; st: ok, refused, died, hung"""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def loop():
        top = tempfile.mkdtemp(prefix='svgc-ex-')
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                via, a, t = jobs[i]
                d = os.path.join(top, 'd%d' % (i % 3))
                os.makedirs(d, exist_ok=True)
                inn, out = os.path.join(d, 'in.svg'), os.path.join(d, 'out.svg')
                if os.path.exists(out):
                    os.unlink(out)
                data, io = None, ['in.svg', 'out.svg']
                if via == 'stdin':
                    data, io = t, ['-c', '-']
                else:
                    with open(inn, 'wb') as f:
                        f.write(t)
                    if via == 'stdout':
                        io = ['-c', inn]
                e = dict(os.environ, LC_ALL=('C', 'en_US.UTF-8', 'de_DE')[i % 3], TZ=('UTC', 'Asia/Tokyo')[i % 2])
                try:
                    p = subprocess.run([BINARY, '--allow-bigger-file', '--quiet'] + list(a) + io, cwd=d, env=e, input=data or b'',
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                except subprocess.TimeoutExpired:
                    res[i] = ('hung', '')
                    continue
                err = p.stderr.decode('utf-8', 'replace')
                if p.returncode not in (0, 1):
                    res[i] = ('died', 'exit status %d: %s' % (p.returncode, err[-200:]))
                    continue
                got = None
                if via == 'file':
                    if os.path.exists(out):
                        with open(out, 'rb') as f:
                            got = f.read()
                elif p.stdout:
                    got = p.stdout
                if got is None:
                    res[i] = ('refused', err)
                else:
                    res[i] = ('ok', got.decode('utf-8', 'replace'))
        finally:
            shutil.rmtree(top, ignore_errors=True)
    ts = [threading.Thread(target=loop) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res
