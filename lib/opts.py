"""Argument lists through the real option parser, judged by spec/OptTrace.tla."""
import random

import svgc

FLAGS = [l for l in '''remove-comments remove-declarations remove-nonsvg-elements remove-nonsvg-attributes remove-unresolved-classes
remove-unused-defs convert-shapes remove-title remove-desc remove-metadata remove-dupl-lineargradient remove-dupl-radialgradient
remove-dupl-fegaussianblur ungroup-groups ungroup-defs group-by-style merge-gradients regroup-gradient-stops remove-invalid-stops
remove-invisible-elements resolve-use remove-version remove-unreferenced-ids trim-ids remove-text-attributes remove-unused-coordinates
remove-default-attributes remove-xmlns-xlink-attribute remove-needless-attributes remove-gradient-attributes
apply-transform-to-gradients apply-transform-to-shapes paths-to-relative remove-unused-segments convert-segments
apply-transform-to-paths trim-paths join-arcto-flags remove-dupl-cmd-in-paths use-implicit-cmds trim-colors append-newline
simplify-transforms'''.split()]
PRECS = ['coordinates-precision', 'properties-precision', 'transforms-precision', 'paths-coordinates-precision']
ENUMS = {'join-style-attributes': ['no', 'some', 'all'], 'list-separator': ['space', 'comma', 'comma-space'],
         'indent': ['none', '0', '1', '2', '3', '4', 'tabs']}
YES, NO = ['yes', 'true', 'y'], ['no', 'false', 'n']
BADFLAG = ['maybe', '1', '0', 'on', 'off', 'YES', 'True', 'N', 'ye']
BADPREC = ['0', '13', '-1', 'abc', '6.5', '256', '99', '1e1', ' 6']
BADENUM = ['maybe', '5', '-1', 'tab', 'commaspace', 'yes', 'None', 'spaces', 'ALL']
FILES = ['in.svg', 'out.svg', 'a/b.svg', 'IN.SVG', '../x.svg', '/tmp/y.svg', 'a b.svg', 'x.svg.svg', '.svg']
BADFILES = ['in.txt', 'svg', 'in.svgz', 'in', 'in.svg.gz', 'a.png', 'in.sv']


def values(o):
    return [str(i) for i in range(1, 13)] if o in PRECS else ENUMS[o] if o in ENUMS else YES + NO


def bad(o):
    return BADPREC if o in PRECS else [b for b in BADENUM if b not in ENUMS[o]] if o in ENUMS else BADFLAG


def event(rnd, g, nd, c=False, pos=('in.svg', 'out.svg')):
    """(argument list, event without its outcome)"""
    items = []
    for k, v in g.items():
        # a value that starts with a dash is only a value after '='
        items.append(['--%s=%s' % (k, v)] if rnd.random() < 0.7 or v.startswith('-') or v == '' else ['--' + k, v])
    if nd:
        items.append(['--no-defaults'])
    if c:
        items.append([rnd.choice(['-c', '--stdout'])])
    for f, p in (('--quiet', 0.15), ('--multipass', 0.1), ('--copy-on-error', 0.1), ('--allow-bigger-file', 0.1)):
        if rnd.random() < p:
            items.append([f])
    rnd.shuffle(items)
    k = rnd.choice([0, len(items), rnd.randrange(len(items) + 1)])
    args = [a for it in items[:k] for a in it] + list(pos) + [a for it in items[k:] for a in it]
    return args, {'g': dict(g), 'nd': nd, 'c': c, 'p': list(pos)}


def combos(seed, scale):
    rnd = random.Random('%s-opts' % seed)
    res = []
    opts = FLAGS + PRECS + sorted(ENUMS)
    for o in opts:                       # every option alone, every value, with and without --no-defaults
        for v in values(o) + bad(o):
            for nd in (False, True):
                res.append(event(rnd, {o: v}, nd))
    res += [event(rnd, {}, nd) for nd in (False, True)]
    for i in range(1 << 4):              # the dependent flags in every combination of given on/given off/not given
        pass
    dep = ['join-arcto-flags', 'trim-paths', 'remove-unused-segments', 'convert-segments', 'apply-transform-to-paths', 'paths-to-relative']
    for n in range(3 ** 6):
        g, k = {}, n
        for d in dep:
            k, r = divmod(k, 3)
            if r:
                g[d] = rnd.choice(YES if r == 1 else NO)
        for nd in (False, True):
            res.append(event(rnd, g, nd))
    for i in range(int(2500 * scale)):   # many options at once
        g = {}
        for o in rnd.sample(opts, rnd.choice([2, 3, 5, 9, 20, 45])):
            g[o] = rnd.choice(values(o))
        if rnd.random() < 0.1 and g:
            o = rnd.choice(sorted(g))
            g[o] = rnd.choice(bad(o))
        res.append(event(rnd, g, rnd.random() < 0.5, rnd.random() < 0.2, rnd.sample(FILES, 2)))
    # file arguments
    for c in (False, True):
        for a in FILES + BADFILES + ['-']:
            if not (a == '-' and not c):
                res.append(event(rnd, {}, False, c, [a]) if c else event(rnd, {}, False, c, [a, 'out.svg']))
            for b in ('out.svg', 'OUT.SVG', 'out.txt', '-'):
                if not (a == '-' and b == '-') and not (a in ('-',) and not c):
                    res.append(event(rnd, {}, rnd.random() < 0.3, c, [a, b]))
    return res


def run(c, seed, scale):
    ev = combos(seed, scale)
    # raw argument lists: the driver's own file arguments are not wanted
    res = svgc.run_jobs([('opts', a, '') for a, _ in ev], files=False)
    recs = []
    size = 8
    for i in range(0, len(ev), size):
        es = []
        for (a, e), r in zip(ev[i:i + size], res[i:i + size]):
            st, out = r
            x = dict(e, st=out[:200] if st not in ('ok', 'check') else st, v={})
            if st == 'ok':
                x['a'] = 'Accepted'
                x['v'] = dict(l.split('=', 1) for l in out.splitlines())
            elif st == 'args':
                x['a'] = 'RejectedValue'
            elif st == 'check':
                x['a'] = 'RejectedCombination'
            else:
                x['a'] = 'Crash'
            k = 'options:' + st
            c.statuses[k] = c.statuses.get(k, 0) + 1
            es.append(x)
        rid = 'opts-%d' % i
        c.cases[rid] = ('opts', [' '.join(a) for a, _ in ev[i:i + size]], '')
        recs.append({'id': rid, 'e': es})
    c.judge('options', recs, module='OptTrace')
    c.extra['options']['argument_lists'] = len(ev)
    c.samples.append({'argument lists': c.cases['opts-0'][1]})
