#!/usr/bin/env python3
"""Says which planted bugs change lines of the original repository (only those count)."""
import os
import re
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '06c270c'
for b in sorted(os.listdir(V + '/seeded')):
    p = '%s/seeded/%s/patch.diff' % (V, b)
    ok = subprocess.run(['git', '-C', '/repo', 'apply', '--check', p]).returncode == 0
    f, line, own, old = None, 0, 0, 0
    for l in open(p):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            c = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '-L%d,%d' % (line, line), f], text=True)
            orig = c.lstrip('^').startswith(BASE)
            old += orig
            own += not orig
            line += 1
        elif l.startswith(' '):
            line += 1
    print('%-28s applies=%s original=%d ours=%d' % (b, ok, old, own))
