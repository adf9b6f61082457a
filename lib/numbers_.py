"""Documents full of numbers, and what the cleaner made of every one of them (for spec/Round.tla).

Only lexing here: which attribute of which element holds which numbers.  Which precision
applies to a number and what rounding may do to it is defined in the specification."""
import random
import re
import xml.parsers.expat as expat
from decimal import Decimal

import gen
import proj

NUM = re.compile(proj.NUMRE)
Q = Decimal(1).scaleb(-18)
LIMB = 10 ** 6


def limbs(t):
    v = int(Decimal(t).quantize(Q).scaleb(18))
    s, v = (-1, -v) if v < 0 else (1, v)
    c = v % LIMB
    v //= LIMB
    b = v % LIMB
    v //= LIMB
    return [s * (v // LIMB), s * (v % LIMB), s * b, s * c]


def decimals(t):
    e = Decimal(t).normalize().as_tuple().exponent
    return max(0, -e)


LEN = {'x', 'y', 'dx', 'dy', 'x1', 'y1', 'x2', 'y2', 'r', 'rx', 'ry', 'cx', 'cy', 'fx', 'fy', 'width', 'height', 'stroke-dashoffset',
       'stroke-width', 'font-size', 'letter-spacing', 'textLength', 'startOffset', 'markerWidth', 'markerHeight', 'refX', 'refY'}
LIST = {'stroke-dasharray', 'points', 'viewBox', 'stdDeviation', 'rotate', 'tableValues', 'kernelMatrix', 'baseFrequency', 'radius'}
ONE = {'stroke-miterlimit', 'opacity', 'fill-opacity', 'flood-opacity', 'stroke-opacity', 'stop-opacity', 'offset', 'k1', 'k2', 'k3', 'k4',
       'scale', 'surfaceScale', 'slope', 'intercept', 'amplitude', 'exponent', 'seed', 'z', 'azimuth', 'elevation'}
TS = {'transform', 'gradientTransform', 'patternTransform'}
UNIT = re.compile(r'[-+0-9.eE,\s]*?(em|ex|px|in|cm|mm|pt|pc|%)')


def lex(a, v):
    """-> (commands, number texts, what else is written) or None"""
    if a == 'd':
        cs, ns = [], []
        i, cur = 0, None
        ws = re.compile(r'[\s,]*')
        while True:
            i = ws.match(v, i).end()
            if i >= len(v):
                return cs, ns, ''
            if v[i].upper() in proj.ARITY:
                cur = v[i]
                i += 1
            elif cur in ('M', 'm'):
                cur = {'M': 'L', 'm': 'l'}[cur]
            elif cur is None or cur in 'Zz':
                return None
            cs.append('z' if cur == 'Z' else cur)
            for k in range(proj.ARITY[cur.upper()]):
                i = ws.match(v, i).end()
                if cur in 'aA' and k in (3, 4):
                    ns.append(v[i])
                    i += 1
                    continue
                m = NUM.match(v, i)
                if not m:
                    return None
                ns.append(m.group())
                i = m.end()
    if a in TS:
        m = re.fullmatch(r'\s*matrix\s*\(([^)]*)\)\s*', v)
        return ([], NUM.findall(m.group(1)), 'matrix') if m else None
    if a in LEN | LIST | ONE:
        ns = NUM.findall(v)
        rest = re.sub(r'[\s,]+', ' ', NUM.sub('#', v)).strip().replace('px', '')
        return [], ns, rest
    return None


def attributes(text):
    """{element id: (tag, {attribute: lexed})}; a style attribute wins"""
    res = {}

    def start(t, a):
        i = a.get('id')
        if not i:
            return
        d = {}
        for k, v in a.items():
            d[k] = v
        for part in a.get('style', '').split(';'):
            if ':' in part:
                k, v = part.split(':', 1)
                d[k.strip()] = v.strip()
        res[i] = (t, {k: x for k, x in ((k, lex(k, v)) for k, v in d.items()) if x})
    p = expat.ParserCreate()
    p.StartElementHandler = start
    p.Parse(text.encode('utf-8'), True)
    return res


def events(text, out):
    """one event for every attribute that holds numbers on both sides"""
    a, b = attributes(text), attributes(out)
    ev = []
    for i, (t, at) in a.items():
        if i not in b or b[i][0] != t:
            continue
        for k, (ic, n, rest) in at.items():
            if k not in b[i][1]:
                continue
            oc, o, orest = b[i][1][k]
            if rest.split() and orest.split() and (rest.count('%') != orest.count('%') or re.sub('[^a-z]', '', rest) != re.sub('[^a-z]', '', orest)):
                continue        # another unit
            ev.append({'t': t + '#' + i, 'a': k, 'ic': ic, 'oc': oc, 'i': [limbs(x) for x in n], 'o': [limbs(x) for x in o],
                       'dec': [decimals(x) for x in o]})
    return ev


# ---------------------------------------------------------------- documents
class Doc:
    def __init__(self, seed, places, big=True):
        self.r = random.Random(seed)
        self.places = places
        self.big = big
        self.k = 0

    def num(self, lo=-1.0, hi=1.0, mag=None):
        """a number text between lo*mag and hi*mag"""
        r = self.r
        mag = mag if mag is not None else r.choice([1, 10, 100, 1000] if self.big else [1, 10])
        x = r.uniform(lo, hi) * mag
        k = r.random()
        d = r.choice(self.places) + r.choice([-1, 0, 0, 1, 1, 2, 4, 8])
        d = max(0, min(14, d))
        t = '%.*f' % (d, x)
        if k < 0.25 and 0 <= d < 14:      # close to half a unit
            t = '%.*f%s' % (max(1, d), x, r.choice(['5', '5', '49', '51', '4999', '5001', '9', '0']))
        elif k < 0.3:
            t = '%d' % x
        elif k < 0.36:
            t = '%.*e' % (r.choice([0, 3, 9]), x)
        elif k < 0.4:
            t = '%.*f' % (d, round(x) + r.choice([0.9999999, 0.00000001, 0.5, 0.05]) * (1 if hi > 0.99 else 0))
        if r.random() < 0.15:
            t = re.sub(r'^(-?)0\.', r'\1.', t)
        if r.random() < 0.05 and t[0] not in '-+':
            t = '+' + t
        v = float(t)
        if v < lo * mag - 1e-12 or v > hi * mag + 1e-12:
            t = '%.*f' % (d, (lo + hi) / 2 * mag)
        return t

    def id(self):
        self.k += 1
        return ' id="n%d"' % self.k

    def at(self, **kw):
        return ''.join(' %s="%s"' % (k.replace('_', '-'), v) for k, v in kw.items() if v is not None)

    def matrix(self):
        n = [self.num(mag=self.r.choice([1, 3])) for _ in range(4)] + [self.num() for _ in range(2)]
        return 'matrix(%s)' % self.r.choice([' ', ',', ', ']).join(n)

    def opt(self, p, f):
        return f() if self.r.random() < p else None

    def props(self):
        r = self.r
        p = {}
        for k, f in (('stroke-width', lambda: self.num(0.001, 1)), ('stroke-miterlimit', lambda: self.num(0.1, 1, 10)),
                     ('stroke-dashoffset', self.num), ('opacity', lambda: self.num(0, 1, 1)), ('fill-opacity', lambda: self.num(0, 1, 1)),
                     ('stroke-opacity', lambda: self.num(0, 1, 1)), ('font-size', lambda: self.num(0.1, 1, 50)),
                     ('stroke-dasharray', lambda: ' '.join(self.num(0.01, 1) for _ in range(r.choice([2, 3, 4]))))):
            if r.random() < 0.25:
                p[k] = f() + (r.choice(['mm', 'pt', 'px', 'in', 'cm', 'pc']) if k in ('stroke-width', 'stroke-dashoffset') and r.random() < 0.2 else '')
        if p and r.random() < 0.25:
            ks = r.sample(sorted(p), r.randint(1, len(p)))
            return self.at(style=';'.join('%s:%s' % (k, p[k]) for k in ks), **{k.replace('-', '_'): v for k, v in p.items() if k not in ks})
        return self.at(**{k.replace('-', '_'): v for k, v in p.items()})

    def path(self):
        r = self.r
        out = []
        rel = r.random() < 0.4
        for i in range(r.randint(2, 9)):
            c = 'M' if i == 0 or out[-1][0] in 'Zz' else r.choice('MLLHVCSQTAZLC')
            if rel and i and r.random() < 0.8:
                c = c.lower()
            n = proj.ARITY[c.upper()]
            a = [self.num() for _ in range(n)]
            if c in 'Aa':
                a = [self.num(0.01, 1), self.num(0.01, 1), self.num(mag=90), r.choice('01'), r.choice('01'), a[5], a[6]]
            out.append(c + ' ' + r.choice([' ', ',']).join(a))
        return ' '.join(out)

    def shape(self):
        r = self.r
        n = self.num
        u = lambda s: s + (r.choice(['mm', 'pt', 'px', 'em', '%', 'in', 'cm', 'ex']) if r.random() < 0.1 else '')
        k = r.choice(['rect', 'circle', 'ellipse', 'line', 'polygon', 'polyline', 'path', 'path', 'path', 'text', 'image', 'use', 'g', 'svg'])
        c = self.id() + self.props() + self.at(transform=self.opt(0.3, self.matrix))
        if k == 'rect':
            rx = self.opt(0.3, lambda: n(0.01, 0.4, 1))
            return '<rect%s%s/>' % (c, self.at(x=u(n()), y=u(n()), width=n(1, 10, 10), height=n(1, 10, 10), rx=rx, ry=rx and self.opt(0.7, lambda: n(0.01, 0.4, 1))))
        if k == 'circle':
            return '<circle%s%s/>' % (c, self.at(cx=u(n()), cy=u(n()), r=u(n(0.01, 1))))
        if k == 'ellipse':
            return '<ellipse%s%s/>' % (c, self.at(cx=n(), cy=u(n()), rx=n(0.01, 1), ry=n(0.01, 1)))
        if k == 'line':
            return '<line%s%s/>' % (c, self.at(x1=u(n()), y1=n(), x2=n(), y2=u(n())))
        if k in ('polygon', 'polyline'):
            return '<%s%s points="%s"/>' % (k, c, r.choice([' ', ',']).join(n() for _ in range(2 * r.randint(2, 5))))
        if k == 'path':
            return '<path%s d="%s"/>' % (c, self.path())
        if k == 'text':
            j = r.randint(1, 3)
            return '<text%s%s>t<tspan%s%s>s</tspan></text>' % (
                c, self.at(x=' '.join(n() for _ in range(j)), y=n(), letter_spacing=self.opt(0.2, n), textLength=self.opt(0.1, lambda: n(0.1, 1))), self.id(),
                self.at(dx=' '.join(n() for _ in range(j)), dy=self.opt(0.5, n), rotate=self.opt(0.2, n), font_size=self.opt(0.3, lambda: n(0.1, 1, 50))))
        if k == 'image':
            return '<image%s%s xlink:href="a.png"/>' % (c, self.at(x=n(), y=n(), width=n(0.1, 1), height=n(0.1, 1)))
        if k == 'use':
            return '<use%s%s xlink:href="#p"/>' % (c, self.at(x=n(), y=n()))
        if k == 'svg':
            return '<svg%s%s>%s</svg>' % (self.id(), self.at(x=n(), y=n(), width=n(1, 10, 10), height=n(1, 10, 10), viewBox=' '.join([n(), n(), n(0.1, 1), n(0.1, 1)])),
                                           self.shape())
        return '<g%s>%s%s</g>' % (c, self.shape(), self.shape())

    def server(self):
        r = self.r
        n = self.num
        k = r.choice(['lg', 'rg', 'pattern', 'filter', 'marker', 'mask', 'filter'])
        st = ''.join('<stop%s offset="%s" stop-opacity="%s" stop-color="red"/>' % (self.id(), o, n(0, 1, 1))
                     for o in sorted((n(0, 1, 1) for _ in range(r.choice([2, 3]))), key=float))
        if k == 'lg':
            return '<linearGradient%s%s>%s</linearGradient>' % (self.id(), self.at(x1=n(), y1=n(), x2=n(), y2=n(), gradientTransform=self.opt(0.5, self.matrix)), st)
        if k == 'rg':
            return '<radialGradient%s%s>%s</radialGradient>' % (self.id(), self.at(cx=n(), cy=n(), fx=n(), fy=n(), r=n(0.01, 1), gradientTransform=self.opt(0.5, self.matrix)), st)
        if k == 'pattern':
            return '<pattern%s%s>%s</pattern>' % (self.id(), self.at(x=n(), y=n(), width=n(0.1, 1), height=n(0.1, 1), patternTransform=self.opt(0.5, self.matrix)), self.shape())
        if k == 'marker':
            return '<marker%s%s>%s</marker>' % (self.id(), self.at(refX=n(), refY=n(), markerWidth=n(0.1, 1), markerHeight=n(0.1, 1), viewBox=' '.join([n(), n(), n(0.1, 1), n(0.1, 1)])),
                                                self.shape())
        if k == 'mask':
            return '<mask%s%s>%s</mask>' % (self.id(), self.at(x=n(), y=n(), width=n(0.1, 1), height=n(0.1, 1)), self.shape())
        ch = [lambda: '<feGaussianBlur%s stdDeviation="%s"/>' % (self.id(), n(0.01, 1)),
              lambda: '<feOffset%s%s/>' % (self.id(), self.at(dx=n(), dy=n())),
              lambda: '<feFlood%s%s/>' % (self.id(), self.at(flood_opacity=n(0, 1, 1), flood_color='red')),
              lambda: '<feComposite%s%s/>' % (self.id(), self.at(operator='arithmetic', k1=n(), k2=n(), k3=n(), k4=n())),
              lambda: '<feMorphology%s radius="%s"/>' % (self.id(), n(0.1, 1)),
              lambda: '<feDisplacementMap%s scale="%s" in2="SourceGraphic"/>' % (self.id(), n())]
        return '<filter%s%s>%s</filter>' % (self.id(), self.at(x=self.opt(0.7, n), y=self.opt(0.7, n), width=self.opt(0.5, lambda: n(0.1, 1)), height=self.opt(0.5, lambda: n(0.1, 1))),
                                              ''.join(r.choice(ch)() for _ in range(r.choice([1, 2, 3]))))

    def document(self):
        r = self.r
        n = self.num
        defs = [self.server() for _ in range(r.choice([0, 1, 2]))]
        ids = [re.match(r'<\w+ id="(\w+)"', d).groups()[0] for d in defs]
        kinds = {'linearGradient': 'fill', 'radialGradient': 'fill', 'pattern': 'stroke', 'filter': 'filter', 'marker': 'marker-start', 'mask': 'mask'}
        uses = ''.join('<g %s="url(#%s)">%s</g>' % (kinds[re.match(r'<(\w+)', d).group(1)], i, self.shape()) for d, i in zip(defs, ids))
        body = ''.join(self.shape() for _ in range(r.randint(1, 4)))
        return ('<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"%s%s><path%s d="%s"/><path id="p" d="M 1 2 L 3 4"/><defs>%s</defs>%s%s</svg>'
                % (self.id(), self.at(viewBox=' '.join([n(), n(), n(0.1, 1), n(0.1, 1)]), width=n(0.1, 1), height=n(0.1, 1)), self.id(), self.path(), ''.join(defs), uses, body))


def options(rnd):
    """precisions (each given or left alone) and options that compute no number anew"""
    g = {}
    for k in ('coordinates-precision', 'properties-precision', 'transforms-precision', 'paths-coordinates-precision'):
        if rnd.random() < 0.6:
            g[k] = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
    a = ['--no-defaults'] + ['--%s=%d' % kv for kv in g.items()]
    for k in ('paths-to-relative', 'trim-paths', 'trim-colors', 'remove-needless-attributes', 'remove-default-attributes', 'remove-unused-coordinates', 'group-by-style',
              'remove-dupl-cmd-in-paths', 'use-implicit-cmds', 'remove-dupl-lineargradient', 'remove-unused-defs', 'remove-version', 'remove-text-attributes', 'trim-ids' if 0 else 'remove-title'):
        if rnd.random() < 0.2:
            a.append('--%s=yes' % k)
    if rnd.random() < 0.2:
        a.append('--join-style-attributes=all')
    return a, [g.get('coordinates-precision', 6), g.get('properties-precision', 6), g.get('transforms-precision', 8), g.get('paths-coordinates-precision', 8)]
