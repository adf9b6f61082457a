"""What every property's check explores."""
import json
import os
import random
import re
import tempfile

import author
import core
import gen
import proj
import svgc
from core import gen_docs

NEED_BINARY = {'C11', 'C13', 'C17', 'C19'}
ND = ['--no-defaults']


def on(*names):
    return ['--%s=yes' % n for n in names]


def cycle(docs, argsets):
    return [(argsets[i % len(argsets)], d) for i, d in enumerate(docs)]


def replay_findings(c):
    jobs = [(d['argv'], d['text']) for d in c.findings]
    if jobs:
        q = sorted({d['clause'] for d in c.findings} | {'picture'})
        c.documents('findings', jobs, q)


def authored(c, family, size, limit, opts, q, sim):
    """documents written by TLC (spec/Author.tla): all up to `size`, and longer ones drawn by simulation"""
    quick = c.scale <= 1
    small, n = author.documents(family, size if quick else size + 1, int(limit * c.scale), core.SEED)
    deep, k = author.documents(family, size, int(limit * c.scale), core.SEED, simulate=(sim[0] * (1 if quick else 6), sim[1]))
    c.extra['author ' + family] = {'documents up to size %d' % (size if quick else size + 1): n, 'explored': len(small),
                                   'longer documents': len(deep)}
    r = random.Random('authored-%s-%s' % (family, core.SEED))
    jobs = [(r.choice(opts), d) for d in small + deep]
    c.documents('authored-' + family, jobs, q)


RULE_OPTS = ['ungroup-groups', 'group-by-style', 'resolve-use', 'remove-unused-defs', 'remove-invisible-elements',
             'remove-default-attributes', 'remove-needless-attributes', 'remove-dupl-lineargradient',
             'remove-dupl-radialgradient', 'merge-gradients', 'remove-invalid-stops', 'apply-transform-to-shapes',
             'convert-shapes', 'remove-unreferenced-ids']


def rules(c, family, size, limit, sim=None):
    """The tasks as rewriting rules (spec/Rules.tla): TLC applies them in every order to documents it
    wrote itself; the picture, the links and the decrease of the size hold in every reachable document.
    The share of the real outputs among the reachable documents is reported, and decides nothing."""
    docs, _ = author.documents(family, size, int(limit), core.SEED)
    if sim:
        docs += author.documents(family, size, int(limit / 3), core.SEED, simulate=(int(sim[0] * max(1, min(c.scale, 4))), sim[1]))[0]
    args = ND + ['--join-style-attributes=no'] + on(*RULE_OPTS)
    res = svgc.run_jobs([('clean', args, d) for d in docs])
    rows = []
    for i, (d, r) in enumerate(zip(docs, res)):
        try:
            rows.append(json.dumps({'id': i, 'd': [proj.slim(proj.parse(x)) for x in ([d, r[1]] if r[0] == 'ok' else [d])]}))
        except Exception:
            rows.append(json.dumps({'id': i, 'd': [proj.slim(proj.parse(d))]}))
    with tempfile.NamedTemporaryFile('w', suffix='.ndjson') as fh:
        fh.write('\n'.join(rows) + '\n')
        fh.flush()
        out = c.model('rules-' + family, 'Rules', envv={'TRACE': fh.name}, timeout=60 if c.scale <= 1 else 600, optional=True)
    c.extra['rules-' + family].update({'documents': len(rows), 'real outputs among the reachable': len(set(re.findall(r'REACHED (\d+)', out)))})


# ---- content profiles
PLAIN = dict()
GROUPS = dict(favor=('o_run', 'o_run', 'o_siblings', 'o_containers', 'o_emptygroups', 'o_uses', 'o_defs', 'o_inherit'), group=0.6, depth=4, use=0.15, opacity=0.2, transform=0.35, rot=0.2, props=0.5, width=4, anchor=0.06, switch=0.06, svg=0.06)
USES = dict(favor=('o_uses', 'o_defs', 'o_viewports', 'o_run', 'o_containers'), group=0.4, use=0.4, ids=0.6, symbols=0.4, transform=0.3)
GRADS = dict(favor=('o_hub', 'o_hub', 'o_interp', 'o_stopcolors', 'o_gradattrs', 'o_offsets'), grads=4.0, twins=0.6, gradchain=0.5, gradts=0.45, bbox=0.5, patterns=0.05, clips=0.05, masks=0.05, filters=0.05, markers=0.05,
             symbols=0.05, defsinside=0.5, group=0.3, use=0.1, css=0.05)
FILTERS = dict(favor=('o_filters', 'o_interp'), grads=0.05, filters=3.0, group=0.3, patterns=0.05, clips=0.05, masks=0.05, css=0.05)
SHAPES = dict(favor=('o_rects', 'o_points', 'o_negative', 'o_dashes', 'o_markers', 'o_units'), group=0.2, grads=0.5, markers=0.3, transform=0.5, rot=0.25, css=0.05, units=0.08)
PROPS = dict(favor=('o_defaults', 'o_inherit', 'o_rareprops', 'o_current', 'o_rects', 'o_fallback'), props=0.8, group=0.5, depth=4, style=0.3, css=0.2, use=0.2, inherit=0.1)
HIDDEN = dict(favor=('o_clips', 'o_zeros', 'o_patterns', 'o_masks', 'o_filters', 'o_defs', 'o_uses', 'o_markers'), invisible=0.5, use=0.2, ids=0.5, switch=0.08, grads=0.4, clips=0.4, filters=0.3, masks=0.3, patterns=0.2)
CSS = dict(favor=('o_inherit', 'o_current', 'o_fallback', 'o_stopcolors'), css=1.0, style=0.5, inherit=0.15, props=0.6, defsinside=0.5)
TEXT = dict(favor=('o_text', 'o_fonts', 'o_textprops', 'o_xmlspace', 'o_fontrel', 'o_units'), text=0.6, texty=0.4, group=0.45, props=0.5, css=0.1, units=0.15, use=0.15)
UNITS = dict(favor=('o_units', 'o_fontrel', 'o_caseunits'), units=0.4, group=0.5, depth=4, props=0.6, text=0.2, texty=0.2, use=0.15, transform=0.3)


def c01(c):
    n = 5000 * c.scale
    c.documents('default', [([], d) for d in gen_docs('c01', n)], ['picture', 'refs', 'ids'])
    for nm, p in (('units', UNITS), ('groups', GROUPS), ('uses', USES), ('hidden', HIDDEN), ('props', PROPS), ('grads', GRADS), ('shapes', SHAPES)):
        c.documents(nm, [([], d) for d in gen_docs('c01' + nm, n / 4, **p)], ['picture'])
    authored(c, 'uses', 2, n / 10, [[]], ['picture', 'refs'], (60, 5))


def c02(c):
    n = 2500 * c.scale
    opts = [ND + on('ungroup-groups'), ND + on('group-by-style'), ND + on('resolve-use'),
            ND + on('ungroup-groups', 'group-by-style'), ND + on('ungroup-defs', 'resolve-use', 'ungroup-groups'),
            ND + on('ungroup-groups', 'group-by-style', 'resolve-use', 'ungroup-defs', 'remove-unused-defs'), [], []]
    c.documents('groups', cycle(gen_docs('c02g', 2 * n, **GROUPS), opts), ['picture', 'refs'])
    c.documents('uses', cycle(gen_docs('c02u', n, **USES), opts), ['picture', 'refs'])
    c.documents('mixed', cycle(gen_docs('c02m', n), opts), ['picture', 'refs'])
    authored(c, 'tree', 2, n / 2, opts, ['picture'], (150, 6))
    authored(c, 'uses', 2, n / 2, opts, ['picture', 'refs'], (60, 5))
    rules(c, 'tree', 2, 400 * c.scale, (60, 5))
    rules(c, 'uses', 2, 400 * c.scale, (40, 4))


def c03(c):
    n = 2500 * c.scale
    gopts = ['remove-dupl-lineargradient', 'remove-dupl-radialgradient', 'merge-gradients', 'regroup-gradient-stops',
             'remove-invalid-stops', 'apply-transform-to-gradients', 'remove-gradient-attributes']
    opts = [ND + on(o) for o in gopts] + [ND + on(*gopts), on('remove-gradient-attributes'), [], ND + on(*gopts[:5]),
                                           ND + on('remove-invalid-stops', 'remove-invisible-elements', 'remove-unused-defs')]
    c.documents('gradients', cycle(gen_docs('c03g', 3 * n, **GRADS), opts), ['picture', 'refs'])
    c.documents('filters', cycle(gen_docs('c03f', n, **FILTERS), [ND + on('remove-dupl-fegaussianblur'), []]), ['picture', 'refs'])
    authored(c, 'gradients', 2, n / 2, opts, ['picture', 'refs'], (300, 6))
    rules(c, 'gradients', 2, 400 * c.scale, (40, 5))


def c04(c):
    n = 2500 * c.scale
    prof = dict(group=0.05, use=0.05, grads=0.05, clips=0.05, masks=0, filters=0, patterns=0.02, symbols=0.05, markers=0.1,
                image=0, switch=0, anchor=0, svg=0, css=0, style=0, transform=0.3, width=6,
                kinds=('path',) * 9 + ('polyline',), segs=7, longpaths=0.02)
    opts = [ND + on('paths-to-relative'), ND + on('paths-to-relative', 'convert-segments'),
            ND + on('paths-to-relative', 'remove-unused-segments'), ND + on('paths-to-relative', 'apply-transform-to-paths'),
            on('apply-transform-to-paths'), []]
    c.documents('paths', cycle(gen_docs('c04p', 3 * n, **prof), opts), ['picture'])
    authored(c, 'paths', 4, n / 2, opts, ['picture'], (80, 9))


def c05(c):
    n = 2500 * c.scale
    opts = [ND + on('convert-shapes'), ND + on('apply-transform-to-shapes'), ND + on('paths-to-relative', 'apply-transform-to-paths'),
            ND + on('convert-shapes', 'apply-transform-to-shapes', 'paths-to-relative', 'apply-transform-to-paths'), [],
            on('apply-transform-to-paths')]
    c.documents('shapes', cycle(gen_docs('c05s', 4 * n, **SHAPES), opts), ['picture'])
    authored(c, 'shapes', 1, n / 2, opts, ['picture'], (1, 1))
    rules(c, 'shapes', 1, 500 * c.scale)


def c06(c):
    n = 2500 * c.scale
    opts = [ND + on('remove-default-attributes'), ND + on('remove-needless-attributes'), ND + on('remove-text-attributes'),
            ND + on('remove-unused-coordinates'), ND + on('remove-version'), ND + on('remove-gradient-attributes'),
            ND + ['--join-style-attributes=all'], ND + ['--join-style-attributes=some'], ND + ['--join-style-attributes=no'],
            ND + on('remove-default-attributes', 'remove-needless-attributes', 'remove-text-attributes', 'remove-unused-coordinates',
                    'remove-gradient-attributes') + ['--join-style-attributes=all'], [], ['--join-style-attributes=all']]
    c.documents('props', cycle(gen_docs('c06p', 3 * n, **PROPS), opts), ['picture'])
    c.documents('text', cycle(gen_docs('c06t', n, **TEXT), opts), ['picture'])
    c.documents('units', cycle(gen_docs('c06u', n, **UNITS), opts), ['picture'])
    authored(c, 'cascade', 2, n / 2, opts, ['picture'], (100, 4))
    authored(c, 'servers', 3, n / 2, [ND + on('remove-default-attributes'), [], ND + on('remove-needless-attributes', 'remove-default-attributes')],
             ['picture'], (40, 5))


def c08(c):
    n = 2500 * c.scale
    opts = [ND + on('remove-invisible-elements'), ND + on('remove-unused-defs'),
            ND + on('remove-invisible-elements', 'remove-unused-defs'), []]
    c.documents('hidden', cycle(gen_docs('c08h', 4 * n, **HIDDEN), opts), ['picture', 'refs'])
    authored(c, 'hidden', 2, n / 2, opts, ['picture', 'refs'], (100, 5))
    authored(c, 'servers', 3, n / 4, opts, ['picture', 'refs'], (20, 5))
    rules(c, 'hidden', 2, 400 * c.scale, (40, 5))


def c14(c):
    n = 2500 * c.scale
    c.documents('css', [(ND, d) for d in gen_docs('c14c', 2 * n, **CSS)], ['picture', 'refs'])
    c.documents('mixed', [(ND, d) for d in gen_docs('c14m', n)], ['picture', 'refs'])
    c.documents('gradients', [(ND, d) for d in gen_docs('c14g', n, **dict(GRADS, favor=('o_stopcolors', 'o_stopcolors', 'o_interp', 'o_hub')))], ['picture', 'refs'])
    c.documents('hidden', [(ND, d) for d in gen_docs('c14h', n, **HIDDEN)], ['picture', 'refs'])
    authored(c, 'cascade', 2, n / 2, [ND], ['picture'], (100, 4))


def c18(c):
    n = 2500 * c.scale
    opts = [[], ND, ND + on('remove-text-attributes'), ND + on('remove-needless-attributes', 'remove-default-attributes'),
            ['--indent=2'], ND + on('ungroup-groups', 'group-by-style')]
    c.documents('text', cycle(gen_docs('c18t', 4 * n, **TEXT), opts), ['picture'])
    authored(c, 'texts', 3, n / 2, opts, ['picture'], (100, 7))
    authored(c, 'spaces', 4, n / 4, [[], ND + on('remove-text-attributes')], ['picture'], (40, 7))


PLANS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C08=c08, C14=c14, C18=c18)


def c11(c):
    import cli
    out = c.model('model', 'Cli', workers=1)
    cases = cli.parse_cases(out)
    if len(cases) < 1000:
        c.problems.append('only %d terminal states' % len(cases))
    for k in range(1 if c.scale == 1 else 4):
        docs = gen_docs('c11-%d' % k, 300)
        cli.replay(c, cases, docs, '%s-%d' % (core.SEED, k))


def c12(c):
    import opts
    opts.run(c, core.SEED, c.scale)


CONTENT = ['remove-comments', 'remove-declarations', 'remove-nonsvg-elements', 'remove-nonsvg-attributes', 'remove-title',
           'remove-desc', 'remove-metadata', 'remove-version', 'remove-unreferenced-ids', 'trim-ids', 'remove-xmlns-xlink-attribute']


def c09(c):
    n = 2500 * c.scale
    rnd = random.Random('c09-%s' % core.SEED)
    prof = dict(extras=1.0, ids=0.4, grads=0.5, css=0.03)

    def content():
        k = rnd.choice([0, 1, 1, 2, 3, 5, 11])
        on_ = rnd.sample(CONTENT, k)
        return ND + on(*on_)

    def default():
        a = ['--%s=no' % o for o in rnd.sample(CONTENT, rnd.choice([0, 1, 2, 4]))]
        return a
    c.documents('content', [(content(), d) for d in gen_docs('c09c', 3 * n, **prof)], ['complete', 'ids', 'refs'])
    c.documents('default', [(default(), d) for d in gen_docs('c09d', n, **prof)], ['complete', 'ids', 'refs'])
    c.documents('defs', [(ND + on('remove-unused-defs'), d) for d in gen_docs('c09u', n, **dict(HIDDEN, extras=0.1))], ['complete', 'refs'])


def c07(c):
    n = 2500 * c.scale
    q = ['picture', 'refs', 'ids', 'keptids', 'trimids']
    opts = [[], ND + on('trim-ids'), ND + on('remove-unreferenced-ids'), ND + on('trim-ids', 'remove-unreferenced-ids'),
            ['--remove-unreferenced-ids=no'], ['--trim-ids=no'], ND + on('resolve-use', 'trim-ids', 'ungroup-groups'),
            ND + on('merge-gradients', 'regroup-gradient-stops', 'remove-dupl-lineargradient', 'trim-ids', 'remove-unused-defs')]
    prof = dict(ids=0.8, use=0.25, grads=0.6, idstyle=1)
    c.documents('ids', cycle(gen_docs('c07i', 2 * n, **prof), opts), q)
    c.documents('uses', cycle(gen_docs('c07u', n, **dict(USES, ids=0.9, idstyle=1)), opts), q)
    c.documents('grads', cycle(gen_docs('c07g', n / 2, **dict(GRADS, ids=0.9, idstyle=1)), opts), q)
    # enough ids for one, two and three letter names
    big = []
    for k in (51, 52, 53, 60, 113, 114, 115, 150):
        for a in (opts[1], opts[3], opts[0]):
            big.append((a, many_ids(k, a is opts[1])))
    c.documents('manyids', big, q)
    c.documents('thousands', [(ND + on('trim-ids'), many_ids(k, True)) for k in (3275, 3276, 3277, 3420)], ['ids', 'trimids', 'refs'])


def many_ids(k, spare):
    r = random.Random(k)
    out = ['<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">']
    for i in range(k):
        out.append('<rect id="r%d" x="%d" width="%d" height="3"/>' % (i, i % 97, 2 + i % 7))
    step = max(1, k // 60) if spare else 1
    for i in range(0, k, step):
        j = r.randrange(k) if spare else i
        out.append('<use xlink:href="#r%d" y="%d"/>' % (j, 5 + i % 11))
        if not spare:
            out.append('<use xlink:href="#r%d" y="%d"/>' % (j, 50 + i % 11))
    out.append('</svg>')
    return '\n'.join(out)


PLANS.update(C07=c07, C09=c09, C11=c11, C12=c12)


def random_options(rnd, most=6):
    """a valid argument list"""
    import opts
    a = list(ND) if rnd.random() < 0.5 else []
    fl = [f for f in opts.FLAGS if f != 'append-newline']
    g = {f: rnd.choice(['yes', 'no']) for f in rnd.sample(fl, rnd.randint(0, most))}
    if rnd.random() < 0.2:
        g['join-style-attributes'] = rnd.choice(['no', 'all', 'some'])
    for x, y in (('join-arcto-flags', 'trim-paths'), ('remove-unused-segments', 'paths-to-relative'), ('convert-segments', 'paths-to-relative'),
                 ('apply-transform-to-paths', 'paths-to-relative')):
        if y in g or ND[0] in a:
            g.pop(x, None)
        if y in g and g[y] == 'no':
            g[y] = 'yes'
        if g.get(x) == 'yes':
            g[y] = 'yes'
    return a + ['--%s=%s' % kv for kv in g.items()]


def c10(c):
    n = int(2500 * c.scale)
    rnd = random.Random('c10-%s' % core.SEED)
    kinds = {}
    for stage, bad, prof in (('offending', True, dict(PLAIN)), ('offendingtext', True, dict(TEXT)), ('lookalike', False, dict(PLAIN)),
                             ('lookalikedefs', False, dict(GRADS))):
        jobs = []
        for i in range(n):
            k, d = gen.offending('c10%s/%d/%d' % (stage, core.SEED, i), bad, **prof)
            kinds[stage + ':' + k] = kinds.get(stage + ':' + k, 0) + 1
            jobs.append((random_options(rnd), d))
        c.documents(stage, jobs, ['accept'])
    c.extra['injected'] = kinds


def passes(c, stage, docs, argsets, most, q, tail_args=None):
    """every document cleaned again and again; (texts of the passes) per document"""
    cases = [('clean', argsets[i % len(argsets)], d) for i, d in enumerate(docs)]
    hist = [[d] for d in docs]
    live = list(range(len(docs)))
    bad = {}
    for k in range(most):
        res = svgc.run_jobs([('clean', cases[i][1], hist[i][-1]) for i in live])
        nxt = []
        for i, r in zip(live, res):
            if r[0] == 'ok':
                hist[i].append(r[1])
                if hist[i][-1] != hist[i][-2]:
                    nxt.append(i)
            else:
                bad[i] = r
        live = nxt
    rows, depth = [], {}
    for i, h in enumerate(hist):
        if i in bad and len(h) == 1:
            if bad[i][0] in ('parse', 'clean'):
                continue        # refused at once: C10
        num = {}
        ids = [num.setdefault(t, len(num) + 1) for t in h[1:]]
        depth[len(num)] = depth.get(len(num), 0) + 1
        # the input, the first pass, the second, the last
        keep = sorted({0, min(1, len(h) - 1), min(2, len(h) - 1), len(h) - 1})
        ev = [core.clean_event(j + 1, j + 2, cases[i][1], q) for j in range(len(keep) - 1)]
        if i in bad:
            st = bad[i]
            ev.append({'a': 'RefuseOwn' if st[0] in ('parse', 'clean') else 'Crash', 'f': len(keep), 't': len(keep), 'g': {}, 'nd': False, 'q': [],
                       'st': '%s: %s' % (st[0], st[1][:200])})
        else:
            ev.append({'a': 'Settle', 'f': 1, 't': 1, 'g': {}, 'nd': False, 'q': [], 'st': '', 'h': ids, 'r': 0})
        rows.append(['%s-%d' % (stage, i), cases[i], [h[j] for j in keep], ev, 'picture' in q, core.tolerance(docs[i], []) * 2])
    c.extra[stage + ' passes to a fixed text'] = {str(k): v for k, v in sorted(depth.items())}
    return rows, hist, bad


def c13(c):
    n = int(1200 * c.scale)
    rnd = random.Random('c13-%s' % core.SEED)
    sets = [[], [], ['--join-style-attributes=all'], ND, ['--apply-transform-to-paths=yes', '--remove-gradient-attributes=yes'],
            ['--indent=2', '--coordinates-precision=2', '--paths-coordinates-precision=2', '--transforms-precision=3']] + \
           [random_options(rnd) for _ in range(20)]
    sets = [[a for a in s if not a.startswith('--append-newline')] for s in sets]
    q = ['picture', 'refs', 'ids']
    for stage, prof in (('mixed', PLAIN), ('groups', GROUPS), ('gradients', GRADS), ('props', PROPS), ('uses', USES)):
        docs = gen_docs('c13' + stage, n / (1 if stage == 'mixed' else 2), **prof)
        rows, _, _ = passes(c, stage, docs, sets, 12, q)
        c.histories(stage, rows)
    # multipass mode of the executable
    import cli
    docs = [d for st, prof in (('a', PLAIN), ('b', GROUPS), ('c', GRADS)) for d in gen_docs('c13m' + st, n / 4, **prof)]
    rows, hist, bad = passes(c, 'multipass', docs, sets, 30, [])
    outs = cli.multipass([(sets[i % len(sets)], d) for i, d in enumerate(docs)])
    keep = []
    for r in rows:
        i = int(r[0].split('-')[1])
        num = {}
        ids = [num.setdefault(t, len(num) + 1) for t in hist[i]]
        st, out = outs[i]
        if st == 'hung':
            ev = core.crash_event(1, 'multipass mode does not end')
        elif i in bad:
            continue
        else:
            ev = {'a': 'Multipass', 'f': 1, 't': 1, 'g': {}, 'nd': False, 'q': [], 'st': st, 'h': ids, 'r': num.get(out, 0),
                  'n': [len(t.encode('utf-8')) for t in hist[i]]}
        keep.append([r[0], r[1], r[2][:1], [ev], False, 30])
    c.histories('multipass', keep)


NOTATION = {'indent': ['none', '0', '1', '2', '3', '4', 'tabs'], 'list-separator': ['space', 'comma', 'comma-space'],
            'trim-paths': ['yes', 'no'], 'join-arcto-flags': ['yes', 'no'], 'remove-dupl-cmd-in-paths': ['yes', 'no'],
            'use-implicit-cmds': ['yes', 'no'], 'trim-colors': ['yes', 'no'], 'simplify-transforms': ['yes', 'no']}


def notation(rnd):
    g = {}
    for k, vs in NOTATION.items():
        if rnd.random() < 0.75:
            g[k] = rnd.choice(vs)
    if g.get('join-arcto-flags') == 'yes':
        g['trim-paths'] = 'yes'
    return ['--%s=%s' % kv for kv in g.items()]


def c16(c):
    n = int(2000 * c.scale)
    rnd = random.Random('c16-%s' % core.SEED)
    q = ['ns', 'refs', 'ids']
    paths = dict(group=0.1, kinds=('path',) * 8 + ('polyline', 'polygon'), segs=9, longpaths=0.01, transform=0.5, css=0, grads=0.3, rot=0.5)
    for stage, prof, m in (('mixed', dict(extras=0.4, badrefs=0.0, favor=('o_xattr', 'o_root')), n), ('paths', paths, n), ('text', dict(TEXT, extras=0.3), n / 2),
                           ('gradients', dict(GRADS), n / 4)):
        docs = gen_docs('c16' + stage, m, worded=True, **prof)
        jobs, meta = [], []
        for i, d in enumerate(docs):
            base = random_options(rnd, 4)
            base = [a for a in base if a.split('=')[0][2:] not in NOTATION]
            vs = [notation(rnd) for _ in range(3)]
            meta.append((base, vs))
            jobs += [('clean', base + v, d) for v in vs]
        res = svgc.run_jobs(jobs)
        again, where = [], {}
        for k, (j, r) in enumerate(zip(jobs, res)):
            if r[0] == 'ok' and k % 3 == 0:
                where[k] = len(again)
                again.append(('clean', ND + ['--remove-nonsvg-elements=yes'], r[1]))
        res2 = svgc.run_jobs(again)
        rows = []
        for i, d in enumerate(docs):
            rs = res[3 * i:3 * i + 3]
            base, vs = meta[i]
            if all(r[0] in ('parse', 'clean') for r in rs):
                continue
            texts, ev = [d], []
            for r, v in zip(rs, vs):
                if r[0] != 'ok':
                    ev.append(core.crash_event(1, 'with %s: %s %s' % (v, r[0], r[1][:150])))
                    continue
                texts.append(r[1])
                ev.append(core.clean_event(1, len(texts), base + v, q if len(texts) == 2 else ['ns']))
                if len(texts) > 2:
                    ev.append({'a': 'Rewrite', 'f': 2, 't': len(texts), 'g': {}, 'nd': False, 'q': [], 'st': ' '.join(v)})
            w = where.get(3 * i)
            if w is not None and res2[w][0] != 'ok':
                ev.append({'a': 'RefuseOwn', 'f': 2, 't': 2, 'g': {}, 'nd': False, 'q': [], 'st': '%s: %s' % (res2[w][0], res2[w][1][:150])})
            rows.append(['%s-%d' % (stage, i), ('clean', base + ['|'] + vs[0] + ['|'] + vs[1] + ['|'] + vs[2], d), texts, ev, False, 30, True])
        c.histories(stage, rows)


PLANS.update(C10=c10, C13=c13, C16=c16)


# ---- requests and answers
def deep(rnd):
    """a document with one very long dimension"""
    h = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">%s</svg>'
    n = rnd.choice([10, 60, 200, 500])
    big = n * 4
    k = rnd.randrange(14)
    leaf = '<rect id="r" width="3" height="3"/>'
    if k == 0:
        t = rnd.choice(['g', 'svg', 'switch', 'a', 'defs', 'mask', 'clipPath', 'pattern', 'symbol', 'marker', 'x', 'font', 'metadata'])
        a = rnd.choice(['', ' fill="red"', ' opacity="0.5"', ' transform="scale(2)"', ' style="stroke:blue"', ' font-size="2em"'])
        b = '<%s%s>' % (t, a) * big + leaf + '</%s>' % t * big
    elif k == 1:
        b = '<text>' + '<tspan fill="red">' * big + 'a' + '</tspan>' * big + '</text>'
    elif k == 2:
        b = leaf + ''.join('<use id="u%d" xlink:href="#%s"/>' % (i, 'u%d' % (i - 1) if i else 'r') for i in range(n))
    elif k == 3:
        e = rnd.choice(['linearGradient', 'radialGradient', 'pattern', 'filter'])
        b = ''.join('<%s id="u%d"%s/>' % (e, i, ' xlink:href="#u%d"' % (i - 1) if i else '') for i in range(min(n, 200))) + \
            '<rect width="4" height="4" fill="url(#u5)" %s/>' % ('filter="url(#u7)"' if e == 'filter' else '')
    elif k == 4:
        e = rnd.choice(['clipPath', 'mask'])
        at = 'clip-path' if e == 'clipPath' else 'mask'
        b = ''.join('<%s id="u%d"%s>%s</%s>' % (e, i, ' %s="url(#u%d)"' % (at, i - 1) if i else '', leaf.replace(' id="r"', ''), e) for i in range(n)) + \
            '<rect width="4" height="4" %s="url(#u9)"/>' % at
    elif k == 5:
        b = leaf + ''.join('<g id="u%d"><use xlink:href="#%s"/><use xlink:href="#%s"/></g>' % (i, *['u%d' % (i - 1) if i else 'r'] * 2) for i in range(min(n, 60)))
    elif k == 6:
        b = '<rect width="3" height="3" fill="red"/>' * big
    elif k == 7:
        b = '<path d="M 0 0 %s"/>' % (rnd.choice(['L 1 1 ', 'l 0 0 ', 'h 1 ', 'c 1 1 1 1 1 1 ', 'z ', 'M 1 1 ', 'a 1 1 0 0 0 1 1 ', 't 1 1 ', 's 1 1 1 1 ']) * big)
    elif k == 8:
        b = '<linearGradient id="a">%s</linearGradient><rect width="3" height="3" fill="url(#a)"/>' % ('<stop offset="0.5" stop-color="red"/>' * big)
    elif k == 9:
        b = '<g %s>%s</g>' % (' '.join('id%d="x"' % i for i in range(n)), leaf)
    elif k == 10:
        b = '<g transform="%s">%s</g>' % ('translate(1 2) rotate(3) ' * big, leaf)
    elif k == 11:
        b = ''.join('<g id="c%d"><use xlink:href="#c%d"/></g>' % (i, (i + 1) % n) for i in range(n))    # a loop
    elif k == 12:
        e = rnd.choice(['linearGradient', 'pattern', 'filter', 'symbol', 'use'])
        b = ''.join('<%s id="c%d" xlink:href="#c%d"/>' % (e, i, (i + 1) % n) for i in range(n)) + '<rect width="4" height="4" fill="url(#c0)"/>'
    else:
        b = '<rect style="%s" width="3" height="3"/><style>%s</style>' % ('fill:red;' * big, 'rect{fill:blue} ' * n)
    return h % b


HARD = ['', ' ', '\n', '<', '<svg', '<svg>', '<svg/>', '<svg></svg><svg/>', '</svg>', '<svg/><g/>', '<?xml', '<!DOCTYPE svg>', '<!DOCTYPE svg [<!ENTITY a "b">]><svg>&a;</svg>',
        '<svg>&#0;</svg>', '<svg>&#xFFFFFFFF;</svg>', '<svg><!-- -- --></svg>',
        '<svg><![CDATA[</svg>', '<svg xmlns="&"/>', '<svg a="1" a="2"/>', '<svg:svg xmlns:svg="http://www.w3.org/2000/svg"/>', '<svg xmlns:="x"/>',
        '<svg viewBox=""/>', '<svg viewBox="0 0 0 0"/>', '<svg viewBox="1 2"/>', '<svg width=""/>', '<svg width="NaN"/>', '<svg width="1e999"/>', '<svg width="-1e-999"/>',
        '\ufeff<svg/>', '<svg>\ufffe</svg>', '<svg><style/></svg>', '<svg><style>@import url(x);</style></svg>', '<svg><style>a{b</style></svg>',
        '<svg><style>#a{fill:url(#a)}</style><g id="a"/></svg>', '<svg id=""/>', '<svg><rect id=" "/><use xlink:href="# "/></svg>', '<svg><use xlink:href="#"/></svg>',
        '<svg><use xlink:href=""/></svg>', '<svg><rect fill="url()"/></svg>', '<svg><rect fill="url(#)"/></svg>', '<svg><rect style=";;:;"/></svg>',
        '<svg><path d=""/></svg>', '<svg><path d="M"/></svg>', '<svg><path d="L 1 1"/></svg>', '<svg><path d="z"/></svg>', '<svg><path d="M 1"/></svg>',
        '<svg><polygon points=""/></svg>', '<svg><polygon points="1"/></svg>', '<svg transform=""/>', '<svg><g transform="scale(0)"><path d="M 1 1 2 2"/></g></svg>',
        '<svg><g transform="matrix(0 0 0 0 0 0)"><rect width="2" height="2" rx="1" stroke="red"/></g></svg>', '<svg><g transform="x(1)"/></svg>',
        '<svg><linearGradient id="a"><stop/><stop/></linearGradient></svg>', '<svg><stop offset="x"/></svg>', '<svg><text><tspan/></text></svg>']


def requests(rnd, seed, n):
    """texts of every sort, most of them not in the specified language"""
    res = []
    for i in range(n):
        k = rnd.random()
        s = '%s/%d' % (seed, i)
        if k < 0.55:
            d = gen.soup(s, invalid=rnd.choice([0, 0, 0, 0.03]), hot=rnd.choice([0.2, 0.6]))
            if rnd.random() < 0.1:
                d = gen.mutate(rnd, d)
        elif k < 0.8:
            d = gen.document(s, **rnd.choice([PLAIN, GROUPS, USES, GRADS, FILTERS, SHAPES, PROPS, HIDDEN, CSS, TEXT, UNITS]))
            if rnd.random() < 0.4:
                d = gen.mutate(rnd, d)
        elif k < 0.9:
            d = gen.offending(s, rnd.random() < 0.7)[1]
        elif k < 0.97:
            d = rnd.choice(HARD) if rnd.random() < 0.7 else gen.mutate(rnd, rnd.choice(HARD))
        else:
            d = deep(rnd)
        if '<style' in d and gen.style_links(d):
            continue    # known findings
        res.append((rnd.choice([[], [], random_options(rnd), random_options(rnd, 12)]), d))
    return res


SAY = {'ok': 'ok', 'parse': 'refused', 'clean': 'refused'}


def answer(c, st, out, num, via):
    """one observed outcome as an event"""
    if st in ('panic', 'crash', 'died'):
        return {'a': 'Died', 'c': c, 'st': '%s: %s: %s' % (via, st, out[:200]), 'h': 0, 'via': via}
    if st in ('timeout', 'hung'):
        return {'a': 'Hung', 'c': c, 'st': '%s: %s' % (via, st), 'h': 0, 'via': via}
    o = SAY.get(st, st)
    if o != 'ok' and 'Error' in out:
        out = out[out.rindex('Error'):].strip().rstrip('.')      # without warnings
    t = (o, out)
    return {'a': 'Answer', 'c': c, 'st': o, 'h': num.setdefault(t, len(num) + 1), 'via': via}


def c17(c):
    n = int(150000 * c.scale)
    rnd = random.Random('c17-%s' % core.SEED)
    per = 50
    left = n
    k = 0
    while left > 0 and c.left() > 60:
        m = min(left, 30000)
        left -= m
        jobs = requests(rnd, 'c17/%d/%d' % (core.SEED, k), m)
        if k == 0:
            jobs += [(a, d) for d in HARD for a in ([], ND)] + [(a, deep(rnd)) for _ in range(60) for a in ([], ND)]
        res = svgc.run_jobs([('clean', a, d) for a, d in jobs])
        batches = []
        for i in range(0, len(jobs), per):
            num = {}
            ev = [answer(x + 1, r[0], r[1], num, 'library') for x, r in enumerate(res[i:i + per])]
            batches.append(([('clean', a, d) for a, d in jobs[i:i + per]], ev))
        c.process('library-%d' % k, batches)
        k += 1
    # the executable: its own stack, its own ways in and out; bytes that are no text
    import cli
    jobs = requests(rnd, 'c17x/%d' % core.SEED, int(1500 * c.scale))
    jobs += [(a, deep(rnd)) for _ in range(40) for a in ([], ND)]
    plan = []
    for i, (a, d) in enumerate(jobs):
        b = d.encode('utf-8')
        if i % 5 == 0:
            b = bytearray(b)
            for _ in range(rnd.choice([1, 3])):
                if b:
                    b[rnd.randrange(len(b))] = rnd.randrange(256)
            b = bytes(b)
        extra = rnd.choice([[], [], ['--multipass'], ['--copy-on-error']])
        plan.append((('file', 'stdin', 'stdout')[i % 3], list(a) + extra, b))
    res = cli.execute(plan, timeout=30)
    batches = []
    for i in range(0, len(plan), per):
        num = {}
        cases = [(v, a, b.decode('latin-1')) for v, a, b in plan[i:i + per]]
        batches.append((cases, [answer(x + 1, r[0], r[1], num, v[0]) for x, (r, v) in enumerate(zip(res[i:i + per], plan[i:i + per]))]))
    c.process('executable', batches)
    c.assumptions.append('elements nested deeper than 2000 levels are not explored (the DOM library itself is recursive)')
    # known findings, through the executable
    fs = [('file', d['argv'], d['text']) for d in c.findings]
    if fs:
        rs = cli.execute([(v, a, t.encode('utf-8')) for v, a, t in fs], timeout=10)
        c.process('findings', [([j], [answer(1, r[0], r[1], {}, 'file')]) for j, r in zip(fs, rs)])


def c19(c):
    import cli
    n = int(9000 * c.scale)
    rnd = random.Random('c19-%s' % core.SEED)
    per = 30
    for k in range(1 if c.scale == 1 else 4):
        cases = requests(rnd, 'c19/%d/%d' % (core.SEED, k), n)
        for prof in (PROPS, USES, GRADS, CSS, TEXT, PLAIN):
            cases += [(random_options(rnd) if i % 2 else [], gen.document('c19/%d/%d/%d' % (core.SEED, k, i), **prof)) for i in range(n // 12)]
        rnd.shuffle(cases)
        seen = [[] for _ in cases]       # (status, text, via)
        orders = []
        for via in ('library', 'library, other order', 'library, repeated'):
            o = list(range(len(cases)))
            if via != 'library':
                rnd.shuffle(o)
            if via.endswith('repeated'):
                o = [i for i in o for _ in (0, 1)]
            orders.append((via, o))
        for via, o in orders:
            for i, r in zip(o, svgc.run_jobs([('clean', cases[i][0], cases[i][1]) for i in o])):
                seen[i].append((r[0], r[1], via))
        plan = [(v, cases[i][0], cases[i][1].encode('utf-8')) for i in range(len(cases)) for v in (('file', 'stdin', 'stdout') if i % 3 == 0 else (('file', 'stdin', 'stdout')[i % 7 % 3],))]
        who = [i for i in range(len(cases)) for v in ((0, 1, 2) if i % 3 == 0 else (0,))]
        for i, p, r in zip(who, plan, cli.execute(plan)):
            seen[i].append((r[0], r[1], 'executable, ' + p[0]))
        batches = []
        for b in range(0, len(cases), per):
            num, ev = {}, []
            for i in range(b, min(b + per, len(cases))):
                # a text that kills or hangs the process: C17
                ev += [answer(i - b + 1, st, out, num, via) for st, out, via in seen[i] if SAY.get(st, st) in ('ok', 'refused')]
            batches.append(([('clean', a, d) for a, d in cases[b:b + per]], ev))
        c.process('answers-%d' % k, batches)


PLANS.update(C17=c17, C19=c19)



def c15(c):
    import numbers_ as numbers
    rnd = random.Random('c15-%s' % core.SEED)
    n = int(12000 * c.scale)
    jobs = []
    for i in range(n):
        a, places = numbers.options(rnd)
        jobs.append(('clean', a, numbers.Doc('c15/%d/%d' % (core.SEED, i), places, big=max(places) < 10).document()))
    res = svgc.run_jobs(jobs)
    recs = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        rid = 'numbers-%d' % i
        c.cases[rid] = j
        c.statuses[r[0]] = c.statuses.get(r[0], 0) + 1
        if r[0] != 'ok':
            c.violation(rid, 'refused', r[1][:200])
            continue
        recs.append({'id': rid, 'g': core.given(j[1])[0], 'e': numbers.events(j[2], r[1])})
    c.judge('numbers', recs, module='Round')
    c.extra['numbers'].update(attributes=sum(len(r['e']) for r in recs), values=sum(len(e['i']) for r in recs for e in r['e']))


PLANS.update(C15=c15)
