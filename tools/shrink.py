#!/usr/bin/env python3
"""tools/shrink.py replay.json...   reduce recorded violations by hand"""
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import core
import shrink
import svgc


def failing(args, clause):
    q = ['picture', 'refs', 'ids', 'keptids', 'trimids', 'complete', 'accept']

    def f(ts):
        r = svgc.run_jobs([('clean', args, d) for d in ts])
        recs = []
        for i, (d, x) in enumerate(zip(ts, r)):
            try:
                m = core.make_record(str(i), ('clean', args, d), x, q)
            except Exception:
                m = None
            if m:
                recs.append(m)
        res = svgc.validate(recs, chunk=150)
        bad = {b['rec'] for b in res.bad if b['clause'] == clause}
        return [str(i) in bad for i in range(len(ts))]
    return f


svgc.build()
for p in sys.argv[1:]:
    j = json.load(open(p))
    mode, args, text = j['case']
    f = failing(args, j['clause'])
    s = shrink.shrink(text, f)
    x = svgc.run_jobs([('clean', args, s)])[0]
    rx = lambda t: t.replace('xmlns="http://www.w3.org/2000/svg"', '').replace('xmlns:xlink="http://www.w3.org/1999/xlink"', '')
    print('==', os.path.basename(p), j['clause'], ' '.join(args))
    print(rx(s))
    print('->', x[0], rx(x[1]))
    m = core.make_record('0', ('clean', args, s), x, ['picture', 'refs', 'ids', 'keptids', 'trimids', 'complete', 'accept'])
    print([json.dumps(b['info'])[:260] for b in svgc.validate([m]).bad if b['clause'] == j['clause']])
