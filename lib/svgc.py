"""Building and driving the code under test."""
import os
import queue
import select
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'build', 'target')
HARNESS = os.path.join(TARGET, 'release', 'svgc-harness')
BINARY = os.path.join(TARGET, 'release', 'svgcleaner')
JOBS = max(2, min(8, os.cpu_count() or 4))


def env():
    e = dict(os.environ)
    for p in ('/opt/vp/env.sh',):
        if os.path.exists(p):
            out = subprocess.run(['bash', '-c', 'set -a; . %s >/dev/null 2>&1; env -0' % p],
                                 stdout=subprocess.PIPE).stdout
            for kv in out.split(b'\0'):
                if b'=' in kv:
                    k, v = kv.decode('utf-8', 'replace').split('=', 1)
                    e[k] = v
    e['CARGO_TARGET_DIR'] = TARGET
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_PROFILE_RELEASE_LTO'] = 'false'
    e['CARGO_PROFILE_RELEASE_OPT_LEVEL'] = '1'
    e['CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS'] = 'true'
    e['CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS'] = 'true'
    return e


def build(binary=False):
    """(Re)build what the checks run from /repo's current tree."""
    e = env()
    todo = [(os.path.join(VERIF, 'harness'), [])]
    if binary:
        todo.append((REPO, ['--bin', 'svgcleaner']))
    for cwd, extra in todo:
        r = subprocess.run(['cargo', 'build', '--release', '--offline'] + extra, cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode('utf-8', 'replace'))
            raise SystemExit(3)


class Worker:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([HARNESS], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def _fill(self, end):
        left = end - time.time()
        if left <= 0:
            return 'timeout'
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if not r:
            return 'timeout'
        d = os.read(self.p.stdout.fileno(), 1 << 16)
        if not d:
            return 'crash'
        self.buf += d
        return None

    def run(self, mode, args, svg, timeout):
        if self.p is None:
            self.start()
        data = svg.encode('utf-8')
        msg = ('0 %s %d %d\n' % (mode, len(args), len(data))).encode()
        msg += ''.join(a + '\n' for a in args).encode() + data
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return ('crash', '')
        end = time.time() + timeout
        while b'\n' not in self.buf:
            w = self._fill(end)
            if w:
                self.stop()
                return (w, '')
        head, self.buf = self.buf.split(b'\n', 1)
        _, st, n = head.decode().split(' ')
        n = int(n)
        while len(self.buf) < n:
            w = self._fill(end)
            if w:
                self.stop()
                return (w, '')
        pay, self.buf = self.buf[:n], self.buf[n:]
        return (st, pay.decode('utf-8', 'replace'))


def run_jobs(jobs, timeout=10.0, workers=None, files=True):
    """jobs: list of (mode, args, svg).  Returns a list of (status, payload)."""
    res = [None] * len(jobs)
    q = queue.Queue()
    step = 16
    io = ['in.svg', 'out.svg'] if files else []
    for i in range(0, len(jobs), step):
        q.put(i)

    def loop():
        w = Worker()
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            for j in range(i, min(i + step, len(jobs))):
                m, a, s = jobs[j]
                r = w.run(m, list(a) + io, s, timeout)
                if r[0] in ('timeout', 'crash'):
                    # once more in a fresh process, with more time
                    r2 = w.run(m, list(a) + io, s, timeout * 3)
                    r = r2
                res[j] = r
        w.stop()

    ts = [threading.Thread(target=loop) for _ in range(workers or JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


# ---------------------------------------------------------------- TLC
import json
import re
import shutil
import tempfile

SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg=None, envv=None, mem='2g', timeout=800, extra=(), cwd=None, workers=1):
    """One TLC run.  Returns (returncode, output)."""
    d = tempfile.mkdtemp(prefix='tlc-')
    try:
        e = dict(os.environ)
        e.update(envv or {})
        cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
               '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + d, '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', d, '-noGenerateSpecTE',
               '-config', os.path.join(cwd or SPEC, cfg or module + '.cfg')] + list(extra) + \
              [os.path.join(cwd or SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
            return p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as x:
            return -9, (x.stdout or b'').decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


BAD = re.compile(r'"BAD (\{.*\})"$')


def parse_bad(out):
    res = []
    for line in out.splitlines():
        m = BAD.match(line.strip())
        if m:
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


STATES = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')


class TlcResult:
    def __init__(self):
        self.bad = []          # [{rec,pos,clause,info}]
        self.states = 0
        self.transitions = 0
        self.errors = []       # (record id, message): the specification could not be evaluated
        self.consumed = 0


def validate(records, module='Cleaner', chunk=None, mem='3g', timeout=800, deadline=None):
    """Check recorded behaviours against a trace specification, in parallel JVMs."""
    res = TlcResult()
    if not records:
        return res
    lock = threading.Lock()
    n = max(1, min(JOBS, (len(records) + 19) // 20))
    if chunk is None:
        chunk = max(20, min(400, (len(records) + n - 1) // n))
    q = queue.Queue()
    # interleave so that chunks cost about the same
    k = (len(records) + chunk - 1) // chunk
    for i in range(k):
        q.put(records[i::k])

    def one(recs, depth=0):
        fd, path = tempfile.mkstemp(prefix='trace-', suffix='.ndjson')
        with os.fdopen(fd, 'w') as f:
            for r in recs:
                f.write(json.dumps(r, separators=(',', ':')) + '\n')
        try:
            rc, out = tlc(module, envv={'TRACE': path}, mem=mem, timeout=timeout)
        finally:
            os.unlink(path)
        expect = sum(2 + len(r['e']) for r in recs)
        m = STATES.search(out)
        gen = int(m.group(2).replace(',', '')) if m else 0
        if rc == 0 and gen == expect:
            with lock:
                res.bad += parse_bad(out)
                res.states += gen
                res.transitions += int(m.group(1).replace(',', '')) - len(recs)
                res.consumed += len(recs)
            return
        if rc == 150:
            with lock:
                res.errors.append((recs[0]['id'], 'the specification does not parse: ' + out[-1500:]))
            return
        if len(recs) == 1:
            msg = [l for l in out.splitlines() if l and not l.startswith('"BAD')]
            i = next((i for i, l in enumerate(msg) if l.startswith('Error')), 0)
            with lock:
                res.bad += parse_bad(out)
                res.errors.append((recs[0]['id'], 'rc=%s ' % rc + ' | '.join(msg[i:i + 12])[:1500]))
            return
        # isolate the record TLC could not evaluate
        rr = None
        mm = re.findall(r'^/\\ rec = (\d+)', out, re.M)
        if mm and rc not in (-9,):
            rr = int(mm[-1]) - 1
        if rr is not None:
            one([recs[rr]], depth + 1)
            one(recs[:rr] + recs[rr + 1:], depth + 1)
        else:
            h = len(recs) // 2
            one(recs[:h], depth + 1)
            one(recs[h:], depth + 1)

    def loop():
        while True:
            try:
                r = q.get_nowait()
            except queue.Empty:
                return
            if deadline and time.time() > deadline:
                continue
            one(r)

    ts = [threading.Thread(target=loop) for _ in range(min(JOBS, k))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res
