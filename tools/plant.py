"""Plant a bug in a scratch copy of /repo and keep it under seeded/ when it compiles, passes the
tests and its demonstration fails with it and passes without it.  Used from small scripts:

    plant('C03-x', 'C03', [('src/task/..', old, new)], needs, breaks, demo, files={...})
"""
import json
import os
import re
import shutil
import subprocess

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SCRATCH = '/tmp/plant'

HEAD = '''#!/bin/bash
# Exit 0: the property holds for this case; 1: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
top=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh && cd "$top"
cargo build --offline --bin svgcleaner >/dev/null 2>&1 || { echo "does not build"; exit 3; }
bin=$top/target/debug/svgcleaner
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 3
clean() { "$bin" --quiet --allow-bigger-file "$@"; }
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests(cwd):
    best = None
    for _ in range(4):
        r = sh('. /opt/vp/env.sh; cd %s; cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % cwd, cwd)
        o = r.stdout.decode('utf-8', 'replace')
        failed = set(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M))
        n = sum(int(x) for x in re.findall(r'(\d+) passed; ', o))
        if best is None or len(failed) < len(best[0]):
            best = (failed, n, o)
        if not failed and n >= 312:
            break
    return best


def plant(bid, prop, subs, needs, breaks, demo, files=None):
    r = SCRATCH + '/repo'
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.exists(r):
        subprocess.check_call(['cp', '-a', '/repo', r])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD']).decode().strip()
    subprocess.check_call(['git', '-C', r, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', r, 'reset', '-q', '--hard', head])
    d = os.path.join(SCRATCH, 'out', bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, v in (files or {}).items():
        with open(os.path.join(d, k), 'w') as f:
            f.write(v)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(HEAD + demo)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    a = sh('bash %s/demo.sh' % d, r)
    if a.returncode != 0:
        print(bid, 'demo fails on the unchanged tree:', a.returncode, a.stdout.decode()[-600:])
        return False
    for p, old, new in subs:
        s = open(os.path.join(r, p)).read()
        if old not in s:
            print(bid, 'text not found in', p, repr(old)[:80])
            return False
        open(os.path.join(r, p), 'w').write(s.replace(old, new, 1))
    b = sh('bash %s/demo.sh' % d, r)
    failed, n, o = tests(r)
    diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
    sh('git checkout -q -- .', r)
    if b.returncode in (0, 3) or failed or n < 312:
        print(bid, 'REJECTED demo', b.returncode, b.stdout.decode()[-300:], 'failed', sorted(failed)[:6], 'passed', n, o[-300:] if n < 312 else '')
        return False
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
    dst = os.path.join(SEEDED, bid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(bid, 'kept; demo says', b.stdout.decode().strip()[-150:])
    return True
