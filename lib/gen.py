"""Seeded generator of SVG documents.

A profile says how likely each kind of content is; the documents stay inside
the language the specification gives a meaning to (see DESIGN.md, domain)."""
import random
import re

XL = 'xmlns:xlink="http://www.w3.org/1999/xlink"'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


class E:
    """An element under construction."""
    __slots__ = ('t', 'a', 'k', 'style')

    def __init__(self, t, a=None, k=None):
        self.t, self.a, self.k, self.style = t, dict(a or {}), list(k or []), {}

    def text(self, ind='', inl=False):
        a = dict(self.a)
        if self.style:
            a['style'] = ';'.join('%s:%s' % kv for kv in self.style.items())
        s = ind + '<' + self.t + ''.join(' %s="%s"' % (k, esc(str(v))) for k, v in a.items())
        if not self.k:
            return s + '/>'
        inline = inl or self.t in ('text', 'tspan', 'textPath', 'tref', 'title', 'desc', 'style') or ind is None or any(isinstance(c, str) for c in self.k)
        out = s + '>'
        for c in self.k:
            if isinstance(c, str):
                out += c
            elif inline:
                out += c.text('', True)
            else:
                out += '\n' + c.text(ind + ' ')
        if not inline:
            out += '\n' + ind
        return out + '</' + self.t + '>'


DEF = dict(
    depth=3, width=3, group=0.35, use=0.12, text=0.0, image=0.03, switch=0.02, anchor=0.03, svg=0.02,
    grads=0.5, patterns=0.12, clips=0.25, masks=0.15, filters=0.2, markers=0.12, symbols=0.12,
    transform=0.25, rot=0.25, css=0.15, style=0.2, units=0.05, props=0.35, texty=0.0,
    meta=0.1, invisible=0.12, ids=0.3, defsinside=0.2, root_props=0.15, inherit=0.05, bbox=0.4, opacity=0.15,
    gradts=0.35, gradchain=0.4, twins=0.35, favor=(), badrefs=0.02, segs=5, idstyle=0, extras=0.12, foreign=0.5, comments=0.5, odd=0.25, worded=False,
    kinds=('rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path', 'path', 'rect'))


class Gen:
    def __init__(self, seed, **prof):
        self.r = random.Random(seed)
        self.p = dict(DEF)
        self.p.update(prof)
        self.ids = []
        self.n = 0
        self.grad, self.pat, self.clip, self.mask, self.flt, self.mark, self.sym, self.shapes = ([] for _ in range(8))
        self.css = []
        self.chain = {}

    # ---- small helpers
    def has(self, k):
        return self.r.random() < self.p[k]

    def pick(self, *xs):
        return self.r.choice(xs)

    def num(self, lo=0, hi=40):
        r = self.r
        k = r.random()
        if k < 0.75:
            return str(r.randint(lo, hi))
        if k < 0.93:
            return ('%.1f' % (r.randint(lo * 10, hi * 10) / 10.0)).rstrip('0').rstrip('.')
        return ('%.2f' % (r.randint(lo * 100, hi * 100) / 100.0)).rstrip('0').rstrip('.')

    def pos(self):
        return self.num(1, 30)

    def newid(self, base):
        self.n += 1
        if self.p['idstyle'] and self.r.random() < 0.7 and self.names != []:
            # names the tool itself gives, and unusual ones
            if self.names is None:
                self.names = list('abcdefghijklmnABCDE') + ['aa', 'ab', 'a0', 'ba', 'x.y', 'x-y', 'x_1', '_q', 'n:m', '\u0444', 'Aa', 'svg', 'url']
                self.r.shuffle(self.names)
            return self.names.pop()
        return '%s%d' % (base, self.n)

    def length(self):
        v = self.pos()
        if self.has('units'):
            return v + self.pick('px', 'mm', 'em', '%', 'pt')
        return v

    def color(self):
        return self.pick('#ff0000', '#00ff00', 'blue', '#123456', 'black', '#000000', 'white', '#f00', 'rgb(10,20,30)',
                         'red', 'green', 'red', 'red')

    def opac(self):
        return self.pick('0.5', '1', '0.25', '0', '0.5', '0.8', '0.5')

    def ts(self):
        r = self.r
        out = []
        for _ in range(self.pick(1, 1, 1, 2)):
            if self.has('rot'):
                out.append(self.pick('rotate(90)', 'rotate(45)', 'rotate(30 5 5)', 'scale(2 3)', 'scale(-1 1)', 'skewX(30)',
                                     'matrix(1 2 3 4 5 6)', 'matrix(0 1 -1 0 5 5)', 'scale(-2)'))
            else:
                out.append(self.pick('translate(%s %s)' % (self.num(-10, 20), self.num(-10, 20)), 'translate(%s)' % self.num(1, 9),
                                     'scale(2)', 'scale(0.5)', 'scale(2 2)', 'matrix(2 0 0 2 %s %s)' % (self.num(), self.num()),
                                     'matrix(1 0 0 1 %s %s)' % (self.num(), self.num()), 'scale(1)', 'translate(0 0)'))
        return ' '.join(out)

    def gts(self):
        """a gradient transform other than identity (svgdom drops those: known finding)"""
        while True:
            t = self.ts()
            if re.match(r'^((scale\(1\)|translate\(0 0\)|matrix\(1 0 0 1 0 0\)) ?)+$', t):
                continue
            if ' ' in t and re.search(r'\) ', t) and re.search(r'0\.5|-1 1|matrix\(0 1', t):
                continue        # may multiply to identity
            return t

    # ---- properties
    def paint(self):
        r = self.r.random()
        if self.grad and r < 0.3:
            return 'url(#%s)' % self.r.choice(self.grad)
        if self.pat and r < 0.36:
            return 'url(#%s)' % self.r.choice(self.pat)
        if r < 0.48:
            return 'none'
        if r < 0.5:
            return 'currentColor'
        return self.color()

    def prop(self, name):
        if name in ('fill', 'stroke'):
            return self.paint()
        if name in ('fill-opacity', 'stroke-opacity', 'opacity'):
            return self.opac()
        if name == 'stroke-width':
            return self.pick('1', '2', '0.5', '3', '0', '1', '1.5') if not self.has('units') else self.pick('1em', '2mm', '5%')
        if name in ('fill-rule', 'clip-rule'):
            return self.pick('nonzero', 'evenodd')
        if name == 'stroke-linecap':
            return self.pick('butt', 'round', 'square')
        if name == 'stroke-linejoin':
            return self.pick('miter', 'round', 'bevel')
        if name == 'stroke-miterlimit':
            return self.pick('4', '10', '2')
        if name == 'stroke-dasharray':
            return self.pick('none', '5 2', '3,4', '1 2 3', '0 0') if not self.has('units') else self.pick('1em 2', '5% 2', '2ex', '1mm 2mm')
        if name == 'stroke-dashoffset':
            return self.pick('0', '2', '5') if not self.has('units') else self.pick('1em', '2%', '1mm')
        if name == 'display':
            return self.pick('none', 'inline', 'inline', 'block')
        if name == 'visibility':
            return self.pick('hidden', 'visible', 'visible', 'collapse')
        if name == 'color':
            return self.color()
        if name == 'font-size':
            return self.pick('12', '20', '10') if not self.has('units') else self.pick('2em', '150%', '1.5em', '50%', '10pt')
        if name == 'font-family':
            return self.pick('Arial', 'Times', 'Sans')
        if name == 'font-weight':
            return self.pick('bold', 'normal')
        if name == 'font-style':
            return self.pick('italic', 'normal')
        if name == 'text-anchor':
            return self.pick('start', 'middle', 'end')
        if name == 'letter-spacing':
            return self.pick('normal', '2', '1') if not self.has('units') else self.pick('1em', '0.5em', '2ex')
        if name == 'shape-rendering':
            return self.pick('auto', 'crispEdges', 'geometricPrecision')
        if name == 'stop-color':
            return self.color()
        raise KeyError(name)

    COMMON = ['fill', 'fill', 'fill', 'stroke', 'stroke', 'stroke-width', 'fill-opacity', 'stroke-opacity', 'fill-rule',
              'stroke-linecap', 'stroke-linejoin', 'stroke-miterlimit', 'stroke-dasharray', 'stroke-dashoffset',
              'color', 'shape-rendering']

    def style_into(self, e, names, k=None):
        r = self.r
        for _ in range(k if k is not None else self.pick(0, 1, 1, 2, 3)):
            nm = r.choice(names)
            v = self.prop(nm)
            if self.has('inherit') and self.inherited.get(nm):
                v = 'inherit'
            if self.has('style'):
                e.style[nm] = v
            else:
                e.a[nm] = v

    inherited = {}

    def effects(self, e, group):
        r = self.r
        if self.has('opacity'):
            e.a['opacity'] = self.opac()
        if self.clip and r.random() < 0.12:
            e.a['clip-path'] = 'url(#%s)' % r.choice(self.clip)
        if self.mask and r.random() < 0.08:
            e.a['mask'] = 'url(#%s)' % r.choice(self.mask)
        if self.flt and r.random() < 0.1:
            e.a['filter'] = 'url(#%s)' % r.choice(self.flt)
        if self.mark and not group and r.random() < 0.3:
            e.a[self.pick('marker-start', 'marker-mid', 'marker-end')] = 'url(#%s)' % r.choice(self.mark)
        if self.has('invisible'):
            e.a[self.pick('display', 'visibility')] = None
            for p in ('display', 'visibility'):
                if p in e.a:
                    e.a[p] = self.prop(p)

    # ---- shapes
    def path(self):
        r = self.r
        out = ['M %s %s' % (self.num(), self.num())]
        for _ in range(r.randint(1, self.p['segs']) if r.random() >= self.p.get('longpaths', 0) else r.randint(41, 48)):
            c = r.choice('LLLlHhVvCcSsQqTtAazMm')
            n = dict(l=2, h=1, v=1, c=6, s=4, q=4, t=2, m=2)
            if c == 'z':
                if out[-1] != 'z':
                    out.append('z')
            elif c in 'cC' and r.random() < 0.4:
                # straight (or nearly straight) curves
                k = [r.choice([0, 0, 3, 4, 8, 10, 12, -3]) for _ in range(3)]
                dx, dy = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (0, -1)])
                out.append('c ' + ' '.join('%d %d' % (v * dx, v * dy) for v in k))
            elif c in 'lL' and r.random() < 0.2:
                out.append('l 0 0')
            elif len(out) > 1 and out[-1] != 'z' and out[-1][0] not in 'Mm' and r.random() < 0.1:
                out.append(out[-1])
            elif c == 'L' and r.random() < 0.2:
                out.append('L ' + out[0][2:])
            elif c in 'Aa':
                out.append('%s %s %s %s %d %d %s %s' % (c, self.pos(), self.pos(), self.pick('0', '30', '90'), r.randint(0, 1),
                                                      r.randint(0, 1), self.num(), self.num()))
            else:
                lo = 0 if c.isupper() else -15
                out.append(c + ' ' + ' '.join(self.num(lo, 30) for _ in range(n[c.lower()])))
        return ' '.join(out)

    def shape(self):
        t = self.r.choice(self.p['kinds'])
        e = E(t)
        zero = self.has('invisible')
        if t == 'rect':
            e.a.update(x=self.num(), y=self.num(), width=self.length(), height=self.length())
            if self.r.random() < 0.25:
                e.a['rx'] = self.pick('2', '3', '0', '50')
            if self.r.random() < 0.15:
                e.a['ry'] = self.pick('2', '4', '0')
            if self.r.random() < 0.15:
                del e.a['x']
            if zero:
                e.a[self.pick('width', 'height')] = '0'
        elif t == 'circle':
            e.a.update(cx=self.num(), cy=self.num(), r=self.length())
            if zero:
                e.a['r'] = '0'
        elif t == 'ellipse':
            e.a.update(cx=self.num(), cy=self.num(), rx=self.length(), ry=self.length())
            if zero:
                e.a[self.pick('rx', 'ry')] = '0'
        elif t == 'line':
            e.a.update(x1=self.num(), y1=self.num(), x2=self.num(), y2=self.num())
        elif t in ('polyline', 'polygon'):
            e.a['points'] = ' '.join('%s,%s' % (self.num(), self.num()) for _ in range(self.r.randint(1 if zero else 2, 4)))
        else:
            e.a['d'] = self.path() if not zero else self.pick('', 'M 10 10', 'M 10 20 z')
        return e

    def leaf(self, txt=True):
        r = self.r.random()
        p = self.p
        if r < p['use'] and (self.shapes or self.sym):
            tgt = self.r.choice(self.shapes + self.sym + self.sym)
            e = E('use', {'xlink:href': '#' + tgt})
            if self.r.random() < 0.6:
                e.a['x'] = self.num(-5, 20)
            if self.r.random() < 0.5:
                e.a['y'] = self.num(-5, 20)
            if tgt in self.sym and self.r.random() < 0.5:
                e.a.update(width=self.pos(), height=self.pos())
            return e
        r -= p['use']
        if r < p['image']:
            return E('image', {'x': self.num(), 'y': self.num(), 'width': self.pos(), 'height': self.pos(),
                               'xlink:href': self.pick('a.png', 'b.jpg', 'data:image/png;base64,AAAA')})
        r -= p['image']
        if r < p['text'] and txt:
            return self.textel()
        return self.shape()

    WORDS = ['Hello', 'foo', 'Some text', 'a b', 'x', 'bar baz']

    def textel(self):
        r = self.r
        e = E('text', {'x': self.num(), 'y': self.num()})
        n = self.pick(1, 1, 2, 3)
        for i in range(n):
            w = r.choice(self.WORDS)
            if r.random() < 0.4:
                t = E('tspan', k=[w])
                self.style_into(t, ['fill', 'font-size', 'font-weight', 'font-style', 'letter-spacing'])
                if r.random() < 0.3:
                    t.a[self.pick('dx', 'dy', 'x')] = self.num()
                if r.random() < 0.2:
                    t.a[self.pick('baseline-shift', 'text-decoration')] = None
                    if 'baseline-shift' in t.a:
                        t.a['baseline-shift'] = self.pick('sub', 'super')
                    else:
                        t.a['text-decoration'] = 'underline'
                if r.random() < 0.2:
                    t.k.append(E('tspan', {'fill': self.color()}, [r.choice(self.WORDS)]))
                e.k.append(t)
            else:
                e.k.append(w)
        self.style_into(e, ['font-size', 'font-family', 'font-weight', 'text-anchor', 'letter-spacing', 'fill', 'stroke'])
        return e

    # ---- definitions
    def stops(self, n=None):
        r = self.r
        out = []
        k = n if n is not None else r.choice([0, 1, 2, 2, 2, 3, 3])
        off = 0
        same = self.pick('#ff0000', 'blue')
        for i in range(k):
            if r.random() < 0.85:
                off = min(100, off + r.choice([0, 20, 30, 50, 100]))
            else:
                off = r.choice([0, 10, 90, 120])
            o = '%d%%' % off if r.random() < 0.4 else ('%g' % (off / 100.0))
            s = E('stop', {'offset': o})
            c = same if r.random() < 0.4 else self.color()
            if r.random() < 0.9:
                (s.style if self.has('style') else s.a)['stop-color'] = c
            if r.random() < 0.25:
                (s.style if self.has('style') else s.a)['stop-opacity'] = self.opac()
            out.append(s)
        return out

    def gradient(self):
        r = self.r
        t = self.pick('linearGradient', 'linearGradient', 'radialGradient')
        gid = self.newid('g')
        e = E(t, {'id': gid})
        usou = not self.has('bbox')
        names = ('x1', 'y1', 'x2', 'y2') if t[0] == 'l' else ('cx', 'cy', 'r', 'fx', 'fy')
        for nm in names:
            if r.random() < (0.75 if nm not in ('fx', 'fy') else 0.3):
                e.a[nm] = self.num(1, 30) if usou else self.pick('0', '0.5', '1', '50%', '10%', '100%', '0.25')
        if usou:
            if r.random() < 0.95:
                e.a['gradientUnits'] = 'userSpaceOnUse'
        elif r.random() < 0.2:
            e.a['gradientUnits'] = 'objectBoundingBox'
        if r.random() < 0.2:
            e.a['spreadMethod'] = self.pick('pad', 'reflect', 'repeat')
        if self.has('gradts'):
            e.a['gradientTransform'] = self.gts()
        # a chain never comes back to an earlier kind
        fit = [g for g in self.grad if self.chain[g][0] == t[0] or t[0] not in self.chain[g]]
        if fit and self.has('gradchain'):
            e.a['xlink:href'] = '#' + r.choice(fit)
            e.k = self.stops(r.choice([0, 0, 0, 2]))
        else:
            e.k = self.stops()
        if self.tmpl and r.random() < self.p['twins']:
            # a near copy of an earlier gradient
            src = r.choice(self.tmpl)
            stops = [o for o in src.k if not isinstance(o, str)]
            e = E(src.t, dict(src.a, id=gid), [E(o.t, dict(o.a)) for o in stops])
            for s, o in zip(e.k, stops):
                s.style = dict(o.style)
            if r.random() < 0.6:
                names = ('x1', 'y1', 'x2', 'y2') if e.t[0] == 'l' else ('cx', 'cy', 'r', 'fx', 'fy')
                k = r.choice(list(names) * 2 + ['gradientTransform', 'spreadMethod', 'stops', 'stop', 'stop'])
                if k == 'stops':
                    e.k = self.stops()
                elif k == 'stop':
                    for o in ([r.choice(e.k)] if e.k else []):
                        if r.random() < 0.4:
                            (o.style if 'stop-color' in o.style else o.a)['stop-color'] = self.color()
                        elif r.random() < 0.5:
                            (o.style if 'stop-opacity' in o.style else o.a)['stop-opacity'] = self.opac()
                        elif r.random() < 0.5:
                            o.a['offset'] = self.pick('0', '0.5', '1', '0.7', '30%')
                        else:
                            e.k.remove(o)
                elif k == 'spreadMethod':
                    e.a[k] = self.pick('pad', 'reflect', 'repeat')
                elif k == 'gradientTransform':
                    e.a[k] = self.gts()
                elif k in e.a and r.random() < 0.5:
                    del e.a[k]
                else:
                    e.a[k] = self.num(1, 30) if e.a.get('gradientUnits') == 'userSpaceOnUse' else self.pick('0', '0.5', '1', '50%', '10%', '100%', '0.25')
        self.tmpl.append(e)
        self.grad.append(gid)
        self.chain[gid] = [e.t[0]] + (self.chain[e.a['xlink:href'][1:]] if 'xlink:href' in e.a else [])
        return e

    tmpl = None
    ftmpl = None
    names = None

    def definition(self):
        r = self.r
        ks = [(k, self.p[k]) for k in ('grads', 'patterns', 'clips', 'masks', 'filters', 'markers', 'symbols')]
        tot = sum(w for _, w in ks)
        x = r.random() * tot
        for k, w in ks:
            x -= w
            if x <= 0:
                break
        if k == 'grads':
            return self.gradient()
        if k == 'patterns':
            i = self.newid('p')
            e = E('pattern', {'id': i, 'width': self.pos(), 'height': self.pos()}, [self.styled(self.shape())])
            if r.random() < 0.6:
                e.a['patternUnits'] = 'userSpaceOnUse'
            if self.has('transform'):
                e.a['patternTransform'] = self.gts()
            if self.pat and r.random() < 0.3:
                e.a['xlink:href'] = '#' + r.choice(self.pat)
                if r.random() < 0.6:
                    e.k = []
            self.pat.append(i)
            return e
        if k == 'clips':
            i = self.newid('c')
            e = E('clipPath', {'id': i}, [self.shape() for _ in range(self.pick(1, 1, 2))])
            for c in e.k:
                if r.random() < 0.2:
                    c.a['clip-rule'] = self.pick('evenodd', 'nonzero')
                if r.random() < 0.2:
                    c.a['transform'] = self.ts()
                if r.random() < 0.1:
                    c.a['fill'] = self.color()
                if self.has('ids') and r.random() < 0.3:
                    c.a['id'] = self.newid('s')
                    self.shapes.append(c.a['id'])
            if r.random() < 0.2:
                e.a['clipPathUnits'] = self.pick('userSpaceOnUse', 'objectBoundingBox')
            if r.random() < 0.15:
                e.a['transform'] = self.ts()
            if self.clip and r.random() < 0.1:
                e.a['clip-path'] = 'url(#%s)' % r.choice(self.clip)
            if self.has('invisible') and r.random() < 0.4:
                e.k = []
            self.clip.append(i)
            return e
        if k == 'masks':
            i = self.newid('m')
            e = E('mask', {'id': i}, [self.styled(self.shape()) for _ in range(self.pick(1, 1, 2))])
            if r.random() < 0.3:
                e.a.update(x='0', y='0', width=self.pos(), height=self.pos(), maskUnits='userSpaceOnUse')
            if r.random() < 0.1:
                e.a['maskContentUnits'] = self.pick('userSpaceOnUse', 'objectBoundingBox')
            self.mask.append(i)
            return e
        if k == 'filters':
            i = self.newid('f')
            e = E('filter', {'id': i})
            if r.random() < 0.5:
                e.a.update(x='0', y='0', width='1.5', height='1.5')
            if r.random() < 0.2:
                e.a['filterUnits'] = 'userSpaceOnUse'
            c = r.random()
            if c < 0.55:
                e.k = [E('feGaussianBlur', {'stdDeviation': self.pick('1', '2', '1', '2 2', '2', '1.5')})]
                if r.random() < 0.3:
                    e.a['color-interpolation-filters'] = 'sRGB'
            elif c < 0.7:
                e.k = [E('feFlood', {'flood-color': self.color(), 'flood-opacity': self.opac()})]
            elif c < 0.8:
                e.k = [E('feColorMatrix', {'type': 'matrix', 'values': self.pick('1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0',
                                                                             '1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 0.5 0')})]
            else:
                e.k = [E('feGaussianBlur', {'stdDeviation': '2', 'result': 'b'}), E('feOffset', {'dx': self.num(), 'dy': self.num(), 'in': 'b'}),
                       E('feMerge', {}, [E('feMergeNode'), E('feMergeNode', {'in': 'SourceGraphic'})])]
            if self.has('invisible') and r.random() < 0.3:
                e.k = []
            if self.ftmpl and r.random() < self.p['twins']:
                # a near copy of an earlier filter
                src = r.choice(self.ftmpl)
                cp = lambda o: o if isinstance(o, str) else E(o.t, dict(o.a), [cp(x) for x in o.k])
                e = cp(src)
                e.a['id'] = i
                if r.random() < 0.6 and e.k:
                    o = r.choice([e, e] + [x for x in e.k if not isinstance(x, str)] * 3)
                    q, v = self.pick(('x', '1'), ('y', '1'), ('width', '7'), ('height', '8'), ('color-interpolation-filters', 'sRGB'), ('color-interpolation-filters', 'linearRGB'))
                    if o is e and r.random() < 0.4:
                        q, v = self.pick(('filterUnits', 'userSpaceOnUse'), ('primitiveUnits', 'objectBoundingBox'))
                    elif o.t == 'feGaussianBlur' and r.random() < 0.3:
                        q, v = 'stdDeviation', self.pick('1', '2', '3')
                    if q in o.a and r.random() < 0.5:
                        del o.a[q]
                    else:
                        o.a[q] = v
            self.ftmpl.append(e)
            self.flt.append(i)
            return e
        if k == 'markers':
            i = self.newid('k')
            e = E('marker', {'id': i}, [self.styled(self.shape())])
            if r.random() < 0.5:
                e.a.update(markerWidth=self.pos(), markerHeight=self.pos())
            if r.random() < 0.4:
                e.a['orient'] = self.pick('auto', '45')
            if r.random() < 0.4:
                e.a.update(refX=self.num(), refY=self.num())
            self.mark.append(i)
            return e
        i = self.newid('y')
        e = E('symbol', {'id': i}, [self.styled(self.shape()) for _ in range(self.pick(1, 2))])
        if r.random() < 0.4:
            e.a['viewBox'] = '0 0 %s %s' % (self.pos(), self.pos())
        self.sym.append(i)
        return e

    def styled(self, e, group=False):
        names = self.COMMON
        if self.p['texty'] and self.has('texty'):
            names = names + ['font-size', 'font-family', 'font-weight', 'text-anchor', 'letter-spacing'] * 2
        if e.t == 'use' or e.t == 'image':
            pass
        self.style_into(e, names, self.pick(0, 1, 1, 2, 3) if self.has('props') or e.t != 'g' else self.pick(0, 1))
        return e

    def finish(self, e):
        """transform, effects, id of a rendered element"""
        if self.has('transform'):
            e.a['transform'] = self.ts()
        self.effects(e, e.t in ('g', 'svg', 'switch', 'a'))
        if self.has('ids') and 'id' not in e.a:
            e.a['id'] = self.newid('e')
            self.fresh.append((e.t, e.a['id']))
        return e

    fresh = None

    def container(self, depth):
        r = self.r
        x = r.random()
        t = 'g'
        if x < self.p['anchor']:
            t = 'a'
        elif x < self.p['anchor'] + self.p['switch']:
            t = 'switch'
        elif x < self.p['anchor'] + self.p['switch'] + self.p['svg']:
            t = 'svg'
        e = E(t)
        if t == 'a':
            e.a['xlink:href'] = 'http://example.com'
        if t == 'svg':
            e.a.update(x=self.num(), y=self.num(), width=self.pos(), height=self.pos())
        old = dict(self.inherited)
        self.styled(e, True)
        self.inherited = dict(old)
        for k in list(e.a) + list(e.style):
            self.inherited[k] = True
        k = r.randint(0 if self.has('invisible') else 1, self.p['width'])
        shared = None
        if r.random() < 0.3:
            shared = E('x')
            self.style_into(shared, self.COMMON, 2)
        for _ in range(k):
            c = self.node(depth - 1)
            if shared is not None and r.random() < 0.8:
                c.a.update(shared.a)
                for q in shared.style:
                    c.style[q] = shared.style[q]
            e.k.append(c)
        self.inherited = old
        if t == 'svg' or t == 'switch' and False:
            return e
        return self.finish(e)

    def node(self, depth):
        if depth > 0 and self.has('group'):
            return self.container(depth)
        e = self.leaf()
        if e.t not in ('text',):
            self.styled(e)
        e = self.finish(e)
        return e

    def doc(self):
        r = self.r
        self.tmpl, self.ftmpl, self.fresh = [], [], []
        root = E('svg', {'xmlns': 'http://www.w3.org/2000/svg', 'xmlns:xlink': 'http://www.w3.org/1999/xlink'})
        if r.random() < 0.5:
            root.a.update(width='100', height='100')
        if r.random() < 0.3:
            root.a['viewBox'] = '0 0 100 100'
        if self.has('root_props'):
            self.style_into(root, self.COMMON, 1)
        for k in list(root.a) + list(root.style):
            self.inherited = dict(self.inherited)
            self.inherited[k] = True
        defs = E('defs')
        nd = r.randint(0, 4)
        for _ in range(nd):
            defs.k.append(self.definition())
        if defs.k:
            root.k.append(defs)
        if r.random() < 0.35:
            s = self.shape()
            s.a['id'] = self.newid('s')
            self.styled(s)
            if r.random() < 0.3:
                s.a['transform'] = self.ts()
            defs.k.append(s)
            self.shapes.append(s.a['id'])
            if defs not in root.k:
                root.k.append(defs)
        if self.has('meta'):
            root.k.append(E(self.pick('title', 'desc'), k=['some words']))
        n = r.randint(1, 4)
        for i in range(n):
            self.fresh = []
            c = self.node(self.p['depth'])
            root.k.append(c)
            # rendered elements with ids may be used by later siblings
            self.shapes += [i for t, i in self.fresh if t in ('rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path', 'g')]
            if self.has('defsinside') and r.random() < 0.4:
                d = self.definition()
                (root if r.random() < 0.5 else (c if c.t == 'g' else root)).k.append(d)
        if self.has('extras'):
            self.extras(root)
        if self.has('odd'):
            Spice(self, root).run()
        if self.p['favor'] and r.random() < 0.4:
            Spice(self, root).run(r.choice(self.p['favor']))
        if self.p['worded']:
            self.worded(root)
        css = self.add_css(root) if self.has('css') else ''
        self.one_paint(root, css)
        return root

    def worded(self, e):
        """text begins with a word (finding: text-indent)"""
        if e.t == 'text' and e.k and not isinstance(e.k[0], str):
            e.k.insert(0, 'w ')
        for c in e.k:
            if not isinstance(c, str):
                self.worded(c)

    def extras(self, root):
        """content that is not drawn: comments, descriptions, foreign elements and attributes"""
        r = self.r
        els = []

        def walk(e):
            if not isinstance(e, str):
                els.append(e)
                for c in e.k:
                    walk(c)
        walk(root)
        root.a['xmlns:ext'] = 'http://ext'

        def foreign(d=2):
            e = E(self.pick('ext:foo', 'ext:bar', 'bogus', 'ext:rect'))
            if r.random() < 0.4:
                e.a[self.pick('ext:a', 'foo')] = 'v'
            if d and r.random() < 0.4:
                e.k = [self.pick(foreign(d - 1), foreign(d - 1), E('rect', {'width': '5', 'height': '5'}), E('title', k=['q']), 'words', E('desc', k=['w']))]
            return e

        def piece():
            k = r.random()
            if k < self.p['comments'] * 0.6:
                return '<!-- c%d -->' % r.randint(1, 9)
            if r.random() < self.p['foreign'] * 0.5:
                return foreign()
            e = E(self.pick('title', 'desc', 'metadata'), k=['some words'])
            if e.t != 'title' and r.random() < self.p['foreign'] * 0.4:
                e.k = [self.pick(foreign(1), E('title', k=['inner']))] if r.random() < 0.7 else ['w ', foreign(1)]
            elif e.t == 'metadata':
                e.k = []
            return e
        for e in els:
            if e.t in ('title', 'desc', 'style', 'text', 'tspan', 'textPath', 'tref'):
                continue
            if r.random() < 0.25 or (e is root and r.random() < 0.7):
                for _ in range(self.pick(1, 1, 2)):
                    e.k.insert(r.randint(0, len(e.k)), piece())
            if r.random() < 0.12 * self.p['foreign'] * 2:
                e.a[self.pick('ext:a', 'ext:b', 'foo', 'data-x', 'zoo')] = 'v'
        if r.random() < 0.4:
            root.a['version'] = self.pick('1.1', '1.0')
        if r.random() < 0.2:
            root.a['baseProfile'] = self.pick('full', 'tiny')

    def one_paint(self, e, css):
        """paint servers are declared once: no second declaration of that property"""
        for nm in ('fill', 'stroke'):
            va, vs = str(e.a.get(nm, '')), str(e.style.get(nm, ''))
            if 'url(' in va + vs:
                if re.search(r'[{;]%s:' % nm, css):
                    e.a.pop(nm, None)
                    e.style.pop(nm, None)
                elif va and vs:
                    e.a.pop(nm)
        for c in e.k:
            if not isinstance(c, str):
                self.one_paint(c, css)

    def add_css(self, root):
        """rules in ascending specificity, simple selectors, no duplicates"""
        r = self.r
        els = []

        def walk(e):
            if not isinstance(e, str):
                els.append(e)
                for c in e.k:
                    walk(c)
        walk(root)
        rules = []
        names = ['fill', 'stroke', 'stroke-width', 'fill-opacity', 'stroke-linejoin', 'fill-rule', 'opacity']
        drawn = [e for e in els if e.t in ('rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path', 'g', 'use')]
        def decl():
            ks = r.sample(names, r.choice([1, 1, 2]))
            vs = [(k, self.prop(k)) for k in ks]
            return ';'.join('%s:%s' % (k, v if 'url(' not in v else 'green') for k, v in vs)
        if r.random() < 0.15:
            rules.append('*{%s}' % ('stroke-width:2'))
        if r.random() < 0.5:
            rules.append('%s{%s}' % (self.pick('rect', 'circle', 'path', 'g'), decl()))
        if drawn and r.random() < 0.8:
            for cn in ('c1', 'c2'):
                if r.random() < 0.6:
                    rules.append('.%s{%s}' % (cn, decl()))
                    for e in r.sample(drawn, min(len(drawn), r.choice([1, 2]))):
                        e.a['class'] = (e.a.get('class', '') + ' ' + cn).strip()
        withid = [e for e in drawn if re.fullmatch('[A-Za-z][A-Za-z0-9]*', e.a.get('id', ''))]
        if withid and r.random() < 0.5:
            rules.append('#%s{%s}' % (r.choice(withid).a['id'], decl()))
        if rules:
            root.k.insert(0, E('style', {'type': 'text/css'}, ['\n'.join(rules)]))
        return ' '.join(rules)


SHAPES = ('rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path')
DRAWN = SHAPES + ('g', 'use', 'image', 'text', 'a', 'switch')


class Spice:
    """Rarely used constructs, put into a finished document."""

    def __init__(self, g, root):
        self.g, self.root, self.r, self.pick = g, root, g.r, g.pick
        self.space = self.pick('preserve', 'default')   # (findings: space-sibling, space-mixed)
        self.walk()

    def walk(self):
        self.els = []       # (element, ancestors)

        def go(e, up):
            if isinstance(e, str):
                return
            self.els.append((e, up))
            for c in e.k:
                go(c, up + [e])
        go(self.root, [])
        self.defs = next((e for e, _ in self.els if e.t == 'defs'), None)
        if self.defs is None:
            self.defs = E('defs')
            self.root.k.insert(0, self.defs)

    def some(self, *ts, drawn=False, p=0.5, inside=None):
        es = [e for e, up in self.els if (not ts or e.t in ts) and (inside is None or any(u.t in inside for u in up))
              and (not drawn or not any(u.t in ('defs', 'clipPath', 'mask', 'marker', 'pattern', 'symbol') for u in up))]
        if not es:
            return []
        k = max(1, int(len(es) * p * self.r.random() + 0.5))
        return self.r.sample(es, min(k, len(es)))

    def drop(self, e, k):
        e.a.pop(k, None)
        e.style.pop(k, None)

    def run(self, only=None):
        names = [n for n in dir(self) if n.startswith('o_')]
        only = only or self.g.p.get('spice')
        for n in [only] if only else self.r.sample(names, self.pick(1, 2, 3, 5)):
            getattr(self, n)()
            self.walk()

    # ---- gradients
    def o_offsets(self):
        for e in self.some('stop'):
            v = self.pick(None, '-0.5', '1.5', '150%', '-10%', '0.5', '1', '0', '33.3%', '1e-1', '.75')
            if v is None:
                e.a.pop('offset', None)
            else:
                e.a['offset'] = v

    def o_stopcolors(self):
        for e in self.some('stop'):
            k = self.pick(0, 0, 1, 2, 3, 4)
            self.drop(e, 'stop-color')
            if k == 0:
                e.a['stop-color'] = 'currentColor'
                (e.a if self.r.random() < 0.8 else e.style)['color'] = self.g.color()
            elif k == 1:
                e.a['stop-color'] = 'currentColor'
            elif k == 2:
                e.a['stop-color'] = 'inherit'
            elif k == 3:
                e.style['stop-color'] = self.g.color()
                e.a['stop-color'] = self.g.color()
            else:
                self.drop(e, 'stop-opacity')
                e.a['stop-opacity'] = self.pick('inherit', '-1', '2', '0', '1', '0.5')
        for e in self.some('linearGradient', 'radialGradient', p=0.3):
            if self.r.random() < 0.6:
                e.a[self.pick('color', 'color', 'stop-color')] = self.g.color()
            elif self.r.random() < 0.3:
                e.a['stop-opacity'] = self.pick('0.5', '0')

    def o_gradattrs(self):
        for e in self.some('linearGradient', 'radialGradient'):
            for _ in range(self.pick(1, 2)):
                k, v = self.pick(('gradientUnits', 'objectBoundingBox'), ('gradientUnits', 'userSpaceOnUse'), ('spreadMethod', 'pad'), ('spreadMethod', 'repeat'),
                                 *((('x1', '0%'), ('x2', '100%'), ('y1', '0'), ('y2', '0%'), ('x2', '1'), ('y2', '0')) if e.t[0] == 'l' else
                                   (('cx', '50%'), ('cy', '0.5'), ('r', '50%'), ('fx', '50%'), ('fx', e.a.get('cx', '7')), ('fy', e.a.get('cy', '3')), ('r', '0.5'))))
                e.a[k] = v

    def o_interp(self):
        for e in self.some('g', 'svg', 'defs', 'linearGradient', 'radialGradient', 'mask', 'filter', 'a', 'switch', p=0.25):
            if self.r.random() < 0.5:
                e.a['color-interpolation'] = self.pick('linearRGB', 'linearRGB', 'sRGB', 'auto')
            else:
                e.a['color-interpolation-filters'] = self.pick('sRGB', 'sRGB', 'linearRGB', 'auto')

    def o_gradkids(self):
        for e in self.some('linearGradient', 'radialGradient', p=0.4):
            e.k.insert(self.r.randint(0, len(e.k)), E(self.pick('title', 'desc'), k=['w']))

    def o_gradpaint(self):
        """properties that mean nothing on a paint server"""
        for e in self.some('linearGradient', 'radialGradient', 'filter', 'clipPath', p=0.4):
            k, v = self.pick(('fill', 'red'), ('opacity', '0.5'), ('font-size', '20'), ('stroke-width', '3'), ('fill-rule', 'evenodd'))
            if e.t not in ('clipPath',) or k not in ('opacity',):
                e.a[k] = v

    # ---- shapes
    def o_negative(self):
        for e in self.some('rect', 'circle', 'ellipse', 'image', p=0.3):
            ks = [k for k in ('width', 'height', 'r', 'rx', 'ry') if k in e.a]
            if ks and e.t != 'image':
                e.a[self.r.choice(ks)] = self.pick('-5', '-1', '0')

    def o_points(self):
        for e in self.some('polyline', 'polygon'):
            n = self.g.num
            e.a['points'] = self.pick('', n(), n() + ' ' + n(), ' '.join(n() for _ in range(5)), '  1,2 , 3 4,5,6 ', '1e1,2 3-4.5.5', ' '.join(n() for _ in range(6)), '5 5 5 5 5 5')

    def o_rects(self):
        for e in self.some('rect'):
            for _ in range(self.pick(1, 2, 3)):
                k = self.pick('rx', 'ry', 'x', 'y', 'width', 'height')
                e.a[k] = self.pick('10', '50', '0', '3', '1mm', '10%', '0%', '1e1', '+5', '.5', '2em', '1ex', '4pt')
                if self.r.random() < 0.15:
                    del e.a[k]

    def o_units(self):
        for e in self.some('circle', 'ellipse', 'line', 'image', 'use'):
            ks = [k for k in ('cx', 'cy', 'r', 'rx', 'ry', 'x1', 'x2', 'y1', 'y2', 'x', 'y') if k in e.a]
            if ks:
                e.a[self.r.choice(ks)] = self.pick('10%', '2em', '1mm', '0.5in', '0%', '0mm', '3px', '1cm', '1pc')

    def o_zeros(self):
        for e in self.some('rect', 'circle', 'ellipse', 'line', 'use', 'image', 'text'):
            for k in ('x', 'y', 'cx', 'cy', 'x1', 'y1', 'x2', 'y2'):
                if k in e.a and self.r.random() < 0.4:
                    e.a[k] = '0'

    def o_dashes(self):
        for e in self.some(*DRAWN):
            self.drop(e, 'stroke-dasharray')
            e.a['stroke-dasharray'] = self.pick('0', '5', '0 5', '5 0', '1,1', '5 2 0', '0, 0, 0', 'none', '10%', '1.5')
            if self.r.random() < 0.4:
                self.drop(e, 'stroke-dashoffset')
                e.a['stroke-dashoffset'] = self.pick('0', '-3', '5', '1.5')

    def o_paths(self):
        n = self.g.num
        for e in self.some('path'):
            e.a['d'] = self.pick('M 5 5', 'M 5 5 z', '', 'M 1 1 M 2 2 L 9 9', 'm 5 5 5 5 z m 3 3 l 4 4', 'M10-20.5.5L-5e0,6', 'M 1 1 L 5 5 L 5 5 L 5 5',
                                 'M 1 1 z z z', 'M 3 3 a 0 5 0 0 0 9 9', 'M 3 3 a 5 5 0 0 0 0 0', 'M 3 3 A 5 5 0 1 1 9 9 a5 5 0 01 3 4', 'M 1 1 H 1 V 1 H 9',
                                 'M 5 5 h 5 h 5 v 5 v -5', 'M %s %s h 0 v 0 l 0 0 z' % (n(), n()), 'M 3 4 L 3 4', 'M 2 2 L 8 2 L 8 8 L 2 8 L 2 2 z', 'M 2 2 L 8 2 L 8 8 L 2 8 L 2 2')

    # ---- properties
    def o_inherit(self):
        for e in self.some(*DRAWN):
            k = self.pick('opacity', 'clip-path', 'mask', 'filter', 'display', 'visibility', 'fill', 'stroke', 'stroke-width', 'fill-opacity', 'overflow', 'marker-end', 'color')
            if k in ('opacity', 'clip-path', 'mask', 'filter', 'display', 'overflow') and 'id' in e.a:
                continue        # (findings: inherit-through-use)
            if k in ('marker-end',) and e.t in ('g', 'a', 'switch', 'text', 'image', 'use'):
                continue
            self.drop(e, k)
            up = next(u for x, u in self.els if x is e)
            if not any(k in u.a or k in u.style for u in up):
                if k in ('marker-end', 'clip-path', 'mask', 'filter') or not up or self.r.random() < 0.05:
                    continue
                u = self.r.choice(up[-2:])
                if k == 'overflow':
                    u.a[k] = self.pick('visible', 'hidden')
                else:
                    u.a[k] = self.pick('none', 'inline', 'inline') if k == 'display' else self.g.color() if k in ('color', 'fill', 'stroke') else self.g.prop(k)
                if u.a[k] == 'inherit':
                    u.a.pop(k)
                    continue
            e.a[k] = 'inherit'

    def o_defaults(self):
        for e in self.some(*DRAWN):
            for k, v in self.r.sample([('fill', 'black'), ('stroke', 'none'), ('stroke-width', '1'), ('opacity', '1'), ('fill-opacity', '1'), ('fill-rule', 'nonzero'), ('stroke-linecap', 'butt'),
                                       ('stroke-miterlimit', '4'), ('stroke-dasharray', 'none'), ('stroke-dashoffset', '0'), ('display', 'inline'), ('visibility', 'visible'),
                                       ('clip-path', 'none'), ('mask', 'none'), ('filter', 'none'), ('stroke-opacity', '1'), ('clip-rule', 'nonzero'), ('shape-rendering', 'auto'),
                                       ('color-interpolation', 'sRGB'), ('font-size', 'medium'), ('text-anchor', 'start'), ('letter-spacing', 'normal'), ('stroke-linejoin', 'miter')],
                                      self.pick(1, 2, 4)):
                if k not in e.style:
                    e.a[k] = v

    def o_xattr(self):
        """xlink and xml attributes where nothing is linked"""
        self.root.a['xmlns:xlink'] = 'http://www.w3.org/1999/xlink'
        for e in self.some(p=0.2):
            if ':' not in e.t and e.t not in ('style', 'bogus'):
                e.a[self.pick('xlink:title', 'xlink:show', 'xlink:type', 'xlink:role', 'xml:lang', 'xlink:actuate')] = self.pick('x', 'new', 'simple', 'en')
        if self.r.random() < 0.6:
            for e, _ in self.els:
                e.a.pop('xlink:href', None)

    def o_rareprops(self):
        for e in self.some(*DRAWN):
            k, v = self.pick(('color-interpolation', 'linearRGB'), ('color-rendering', 'optimizeSpeed'), ('image-rendering', 'optimizeQuality'), ('shape-rendering', 'crispEdges'),
                             ('color-interpolation-filters', 'sRGB'), ('overflow', 'visible'), ('overflow', 'scroll'), ('pointer-events', 'none'), ('cursor', 'pointer'),
                             ('enable-background', 'new'), ('clip-rule', 'evenodd'), ('visibility', 'collapse'), ('opacity', '0'), ('opacity', '1.5'), ('fill-opacity', '-1'),
                             ('stop-color', 'red'), ('flood-opacity', '0.5'), ('lighting-color', 'red'), ('text-rendering', 'geometricPrecision'))
            self.drop(e, k)
            e.a[k] = v

    def o_fallback(self):
        for e in self.some(*SHAPES):
            k = self.pick('fill', 'stroke')
            self.drop(e, k)
            e.a[k] = self.pick('url(#none) red', 'url(#none) none', 'url(#none)', 'url(#none) #0f0', 'url(#none) currentColor') if k == 'fill' else self.pick('url(#none) red', 'url(#none) none', 'blue')

    def o_current(self):
        if self.r.random() < 0.9 and 'color' not in self.root.style:
            self.root.a['color'] = self.g.color()
        for e in self.some(*DRAWN):
            self.drop(e, 'color')
            e.a['color'] = self.pick('red', 'blue', '#123456', 'inherit')
        for e in self.some(*SHAPES):
            k = self.pick('fill', 'stroke')
            self.drop(e, k)
            e.a[k] = 'currentColor'

    def o_fontrel(self):
        es = self.some('g', 'text', 'tspan', 'svg', 'a', p=0.8)
        for e in es:
            k = self.pick('font-weight', 'font-size', 'font-size', 'font-stretch')
            self.drop(e, k)
            e.a[k] = {'font-weight': ('bolder', 'lighter', 'bold', '400'), 'font-size': ('larger', 'smaller', '2em', '50%', '20', 'x-large'), 'font-stretch': ('wider', 'narrower', 'condensed')}[k][self.r.randrange(3)]

    def o_caseunits(self):
        for e in self.some(*DRAWN):
            k = self.pick('stroke-width', 'font-size', 'stroke-dashoffset')
            self.drop(e, k)
            e.a[k] = self.pick('1e0', '+2', '0.50', '1.0px', '2pt', '.5em', '5%', '0mm', '1.500')

    # ---- structure
    def o_containers(self):
        """wrap a drawn element"""
        for e in self.some(*DRAWN, drawn=True, p=0.3):
            up = next((u[-1] for x, u in self.els if x is e and u), None)
            if up is None or e.t == 'tspan' or up.t in ('switch', 'text', 'tspan') or e not in up.k:
                continue
            t = self.pick('g', 'g', 'g', 'a', 'switch', 'svg')
            w = E(t, {} if t != 'a' else {'xlink:href': 'http://e.org'}, [e])
            if t == 'svg' and self.r.random() < 0.7:
                w.a.update(width=self.g.pos(), height=self.g.pos())
                if self.r.random() < 0.4:
                    w.a['viewBox'] = '0 0 %s %s' % (self.g.pos(), self.g.pos())
                if self.r.random() < 0.3:
                    w.a['preserveAspectRatio'] = self.pick('none', 'xMinYMin slice', 'xMidYMid meet')
            elif self.r.random() < 0.6:
                self.g.styled(w, True)
                if self.r.random() < 0.5:
                    self.g.finish(w)
            up.k[up.k.index(e)] = w

    def o_emptygroups(self):
        for e in self.some('g', 'svg', 'a', 'defs', p=0.4):
            if any(isinstance(c, str) for c in e.k):
                continue
            w = E(self.pick('g', 'g', 'a', 'defs', 'switch', 'text', 'use', 'svg', 'symbol', 'clipPath'))
            if w.t == 'a':
                w.a['xlink:href'] = 'http://e.org'
            if self.r.random() < 0.4:
                w.a[self.pick('fill', 'opacity', 'id')] = self.g.newid('z') if self.r.random() < 0 else '0.5'
                w.a.pop('id', None)
                w.a.pop('fill', None)
            e.k.insert(self.r.randint(0, len(e.k)), w)

    def o_siblings(self):
        """repeat an element next to itself"""
        for e in self.some(*SHAPES, p=0.3):
            up = next((u[-1] for x, u in self.els if x is e and u), None)
            if up is None or e not in up.k or up.t in ('clipPath',):
                continue
            for _ in range(self.pick(1, 2)):
                c = E(e.t, dict(e.a))
                c.style = dict(e.style)
                c.a.pop('id', None)
                if self.r.random() < 0.5:
                    k = self.pick('fill', 'stroke', 'stroke-width', 'transform', 'opacity')
                    self.drop(c, k)
                    c.a[k] = self.g.ts() if k == 'transform' else self.g.prop(k)
                up.k.insert(up.k.index(e) + 1, c)

    def o_run(self):
        """neighbours that share properties, with something else among them"""
        hosts = [e for e, up in self.els if e.t in ('svg', 'g', 'a') and not any(u.t in ('clipPath', 'mask', 'marker', 'pattern', 'switch', 'text') for u in [e] + up)]
        for h in self.r.sample(hosts, min(len(hosts), self.pick(1, 2))):
            at = [i for i, c in enumerate(h.k) if not isinstance(c, str) and c.t in SHAPES + ('g', 'text', 'use')]
            while len(at) < 5:
                c = self.g.finish(self.g.styled(self.g.shape()))
                p = self.r.randint(at[0] if at else 0, len(h.k))
                h.k.insert(p, c)
                at = [i for i, c in enumerate(h.k) if not isinstance(c, str) and c.t in SHAPES + ('g', 'text', 'use')]
            n = self.r.randint(2, min(6, len(at)))
            b = self.r.randint(0, len(at) - n)
            props = self.r.sample(['fill', 'stroke', 'stroke-width', 'fill-opacity', 'transform', 'opacity', 'fill-rule', 'stroke-linecap', 'visibility'], self.pick(1, 1, 2, 3))
            for k in props:
                v = self.g.ts() if k == 'transform' else 'hidden' if k == 'visibility' else self.g.prop(k)
                for i in at[b:b + n]:
                    if self.r.random() < 0.93:
                        self.drop(h.k[i], k)
                        h.k[i].a[k] = v
            if self.r.random() < 0.6:
                i = self.g.newid('o')
                t = self.g.newid('o')
                sh = E(self.pick('rect', 'circle', 'path'), {'id': t})
                sh.a.update({'rect': dict(width='9', height='8'), 'circle': dict(r='9'), 'path': dict(d='M 1 2 L 30 40 L 5 60')}[sh.t])
                mid, extra = self.r.choice([
                    (lambda: (E('use', {'id': i, 'xlink:href': '#' + t}), [E('use', {'xlink:href': '#' + i, 'x': '20'})])),
                    (lambda: (E('use', {'xlink:href': '#' + t}), [])),
                    (lambda: (E('g', {'id': i}, [E('use', {'xlink:href': '#' + t})]), [E('use', {'xlink:href': '#' + i, 'y': '20'})])),
                    (lambda: (E('defs', {}, [E('rect', {'id': i, 'width': '5', 'height': '6'})]), [E('use', {'xlink:href': '#' + i})])),
                    (lambda: (E('rect', {'id': i, 'width': '5', 'height': '6', 'fill': 'blue'}), [E('use', {'xlink:href': '#' + i})])),
                    (lambda: (E('title', k=['w']), [])),
                    (lambda: (E('linearGradient', {'id': i}, self.g.stops(2)), [E('rect', {'width': '9', 'height': '9', 'fill': 'url(#%s)' % i})])),
                    (lambda: (E('switch', {}, [E('rect', {'width': '9', 'height': '9'})]), [])),
                    (lambda: (E('g', {'display': 'none'}, [E('rect', {'id': i, 'width': '9', 'height': '9'})]), [E('use', {'xlink:href': '#' + i})])),
                ])()
                self.defs.k.append(sh)
                h.k.insert(at[b + self.r.randint(0, n - 1)] + 1, mid)
                for x in extra:
                    self.root.k.append(x)

    def o_hub(self):
        """many gradients that inherit from one"""
        gr = [e for e, _ in self.els if e.t in ('linearGradient', 'radialGradient') and e.a.get('id') and 'xlink:href' not in e.a]
        for h in self.r.sample(gr, min(len(gr), 1)):
            n = self.pick(1, 2, 3, 4, 5)
            for _ in range(n):
                t = h.t if self.r.random() < 0.75 else self.pick('linearGradient', 'radialGradient')
                e = E(t, {'id': self.g.newid('g'), 'xlink:href': '#' + h.a['id']}, self.g.stops(2) if self.r.random() < 0.15 else [])
                for nm in self.r.sample(('x1', 'y1', 'x2', 'y2') if t[0] == 'l' else ('cx', 'cy', 'r', 'fx', 'fy'), self.pick(0, 1, 2)):
                    e.a[nm] = self.g.num(1, 30)
                if self.r.random() < 0.7:
                    e.a['gradientUnits'] = self.pick('userSpaceOnUse', 'userSpaceOnUse', 'objectBoundingBox')
                if self.r.random() < 0.2:
                    e.a['spreadMethod'] = self.pick('pad', 'reflect')
                if self.r.random() < 0.2:
                    e.a['gradientTransform'] = self.g.gts()
                self.defs.k.insert(self.r.randint(0, len(self.defs.k)), e)
                self.root.k.append(E('rect', {'x': self.g.num(), 'width': '9', 'height': self.g.pos(), self.pick('fill', 'fill', 'stroke'): 'url(#%s)' % e.a['id']}))
            if self.r.random() < 0.4:
                self.root.k.append(E('rect', {'width': '9', 'height': '8', 'fill': 'url(#%s)' % h.a['id']}))

    def o_defs(self):
        """several and nested defs, with content used and not"""
        for _ in range(self.pick(1, 2)):
            d = E('defs')
            for _ in range(self.pick(1, 2, 3)):
                k = self.r.random()
                if k < 0.35:
                    x = self.g.definition()
                elif k < 0.5:
                    x = E('defs', {}, [self.g.definition()])
                elif k < 0.65:
                    x = E('g', {}, [self.g.definition(), self.g.shape()])
                else:
                    x = self.g.styled(self.g.shape())
                    if self.r.random() < 0.7:
                        x.a['id'] = self.g.newid('s')
                        self.g.shapes.append(x.a['id'])
                d.k.append(x)
            if self.r.random() < 0.3:
                d.a[self.pick('fill', 'stroke')] = self.g.color()
            hosts = [e for e, up in self.els if e.t in ('svg', 'g', 'defs') and not any(u.t in ('clipPath', 'mask', 'marker', 'pattern', 'symbol', 'switch') for u in up)]
            h = self.r.choice(hosts)
            h.k.insert(self.r.randint(0, len(h.k)), d)
        if self.g.shapes and self.r.random() < 0.7:
            self.root.k.append(E('use', {'xlink:href': '#' + self.r.choice(self.g.shapes[-3:])}))

    def o_uses(self):
        host = self.r.choice([e for e, up in self.els if e.t in ('svg', 'g') and not any(u.t in ('defs', 'clipPath', 'mask', 'marker', 'pattern', 'symbol', 'switch') for u in up)])
        k = self.r.randrange(8)
        g = self.g
        i = g.newid('o')
        u = E('use', {'xlink:href': '#' + i})
        if k == 0:
            u.a.pop('xlink:href')
        elif k == 1:
            self.defs.k.append(g.styled(E('svg', {'id': i, 'width': g.pos(), 'height': g.pos()}, [g.shape()])))
            if self.r.random() < 0.5:
                u.a.update(width=g.pos(), height=g.pos())
        elif k == 2:
            self.defs.k.append(g.styled(E('text', {'id': i, 'y': '9'}, ['used'])))
        elif k == 3:
            self.defs.k.append(E('image', {'id': i, 'width': '9', 'height': '8', 'xlink:href': 'u.png'}))
        elif k == 4 and g.shapes:
            self.defs.k.append(g.finish(g.styled(E('use', {'id': i, 'xlink:href': '#' + self.r.choice(g.shapes), 'x': g.num()}))))
        elif k == 5:
            self.defs.k.append(g.finish(g.styled(E('g', {'id': i}, [g.styled(g.shape()), g.styled(g.shape())]))))
        elif k == 6:
            self.defs.k.append(E('symbol', {'id': i, 'overflow': self.pick('visible', 'hidden', 'auto'), 'viewBox': '0 0 9 9', 'preserveAspectRatio': self.pick('none', 'xMinYMin')},
                                 [g.styled(g.shape()), E('g', {}, [g.styled(g.shape())])]))
        else:
            self.defs.k.append(g.finish(E('a', {'id': i, 'xlink:href': 'http://e.org'}, [g.styled(g.shape())])))
        g.styled(u)
        g.finish(u)
        if self.r.random() < 0.3:
            u.a[self.pick('x', 'y')] = self.pick('1mm', '10%', '1em', '0', '5')
        host.k.insert(self.r.randint(0, len(host.k)), u)
        if self.r.random() < 0.3:
            host.k.insert(self.r.randint(0, len(host.k)), E('use', {k: v for k, v in u.a.items() if k != 'id'}))

    def o_viewports(self):
        for e in self.some('svg', 'symbol', 'marker', 'pattern', 'image', p=0.6):
            k = self.pick('preserveAspectRatio', 'viewBox', 'overflow', 'par2')
            if k == 'preserveAspectRatio':
                e.a[k] = self.pick('none', 'xMidYMid', 'xMaxYMax slice', 'xMidYMid meet', 'xMinYMid meet')
            elif k == 'viewBox' and e.t != 'image':
                e.a[k] = self.pick('0 0 10 10', '0,0,20,30', '-5 -5 10 10', '0.5 1.5 10 10')
            elif k == 'overflow':
                e.a[k] = self.pick('visible', 'hidden', 'scroll', 'auto')
        if self.r.random() < 0.2:
            self.root.a.update(x='5', y='6')

    # ---- clips, masks, markers, patterns, filters
    def o_clips(self):
        for e in self.some('clipPath', p=0.8):
            k = self.r.randrange(6)
            g = self.g
            if k == 0:
                e.k.append(E('text', {'y': '5'}, ['clip']))
            elif k == 1 and g.shapes:
                own = {c.a.get('id') for c in e.k if not isinstance(c, str)}
                fit = [x for x in g.shapes if x not in own and any(el.a.get('id') == x and el.t in SHAPES for el, _ in self.els)]
                if fit:
                    e.k.append(E('use', {'xlink:href': '#' + self.r.choice(fit), 'x': g.num()}))
            elif k == 2 and len(g.clip) > 1:
                i = g.clip.index(e.a['id']) if e.a.get('id') in g.clip else 0
                if i > 0 and e.k and not isinstance(e.k[0], str):
                    e.k[0].a['clip-path'] = 'url(#%s)' % g.clip[self.r.randrange(i)]
            elif k == 3:
                e.a['clipPathUnits'] = self.pick('userSpaceOnUse', 'objectBoundingBox')
            elif k == 4:
                for c in e.k:
                    if not isinstance(c, str):
                        q, v = self.pick(('display', 'inline'), ('visibility', 'visible'), ('visibility', 'hidden'), ('opacity', '0.5'), ('opacity', '0'), ('stroke', 'red'), ('fill', 'none'))
                        self.drop(c, q)
                        c.a[q] = v
            else:
                e.k.append(E('g', {}, [g.shape()]))

    def o_masks(self):
        for e in self.some('mask', p=0.8):
            k = self.r.randrange(5)
            g = self.g
            if k == 0:
                e.k = [g.finish(g.styled(E('g', {}, [c for c in e.k]), True))]
            elif k == 1:
                e.a.update(x='-10%', y='-10%', width='120%', height='120%')
            elif k == 2:
                e.a[self.pick('maskUnits', 'maskContentUnits')] = self.pick('userSpaceOnUse', 'objectBoundingBox')
            elif k == 3:
                e.a[self.pick('color-interpolation', 'fill', 'stroke')] = 'linearRGB'
                for q in ('fill', 'stroke'):
                    if q in e.a:
                        e.a[q] = g.color()
            elif g.clip:
                # a clip path cannot be masked by this one: made before or not
                e.a['clip-path'] = 'url(#%s)' % self.r.choice(g.clip)

    def o_markers(self):
        g = self.g
        if not g.mark:
            self.defs.k.append(E('marker', {'id': 'mk'}, [g.styled(g.shape())]))
            g.mark.append('mk')
            self.walk()
        for e in self.some('marker', p=0.8):
            k, v = self.pick(('markerUnits', 'userSpaceOnUse'), ('markerUnits', 'strokeWidth'), ('viewBox', '0 0 5 5'), ('overflow', 'visible'), ('orient', 'auto'), ('orient', '0'),
                             ('refX', '0'), ('markerWidth', '3'), ('markerHeight', '0'), ('preserveAspectRatio', 'none'))
            e.a[k] = v
        for e in self.some('path', 'line', 'polyline', 'polygon', 'g', drawn=True):
            k = self.pick('marker-start', 'marker-mid', 'marker-end')
            self.drop(e, k)
            (e.style if self.r.random() < 0.3 else e.a)[k] = 'url(#%s)' % self.r.choice(g.mark)
            if self.r.random() < 0.4 and e.t != 'g':
                e.a['transform'] = g.ts()

    def o_patterns(self):
        g = self.g
        for e in self.some('pattern', p=0.8):
            k = self.r.randrange(6)
            if k == 0:
                e.a['viewBox'] = '0 0 10 10'
            elif k == 1:
                e.a['patternContentUnits'] = self.pick('objectBoundingBox', 'userSpaceOnUse')
            elif k == 2:
                e.a.update(x=self.pick('0', '10%', '3'), y=self.pick('0', '1'))
            elif k == 3:
                e.k.append(g.finish(g.styled(E('g', {}, [g.styled(g.shape()), g.styled(g.shape())]), True)))
            elif k == 4:
                e.a[self.pick('fill', 'stroke')] = g.color()
            else:
                e.a.update(width='0.5', height='50%')

    def o_filters(self):
        g = self.g
        es = self.some('filter', p=0.8)
        if not es:
            i = g.newid('f')
            es = [E('filter', {'id': i})]
            self.defs.k.append(es[0])
            g.flt.append(i)
            for e in self.some(*DRAWN, drawn=True, p=0.3):
                self.drop(e, 'filter')
                e.a['filter'] = 'url(#%s)' % i
        blur = lambda: E('feGaussianBlur', {'stdDeviation': self.pick('1', '2', '2 2', '2 1', '0', '1,1')})
        for e in es:
            k = self.r.randrange(8)
            if k == 0:
                b = blur()
                q, v = self.pick(('in', 'SourceAlpha'), ('in', 'SourceGraphic'), ('result', 'a'), ('x', '5'), ('width', '9'), ('color-interpolation-filters', 'sRGB'), ('color-interpolation-filters', 'linearRGB'), ('y', '10%'))
                b.a[q] = v
                e.k = [b]
            elif k == 1:
                e.k = [blur(), blur()]
            elif k == 2:
                e.a.update(self.pick({'x': '-10%'}, {'x': '-0.1', 'y': '-0.1'}, {'width': '120%', 'height': '1.2'}, {'filterUnits': 'objectBoundingBox'}, {'primitiveUnits': 'objectBoundingBox'},
                                     {'primitiveUnits': 'userSpaceOnUse'}, {'filterRes': '100'}, {'filterUnits': 'userSpaceOnUse', 'x': '1', 'y': '2'}))
            elif k == 3 and len(g.flt) > 1:
                i = g.flt.index(e.a['id']) if e.a.get('id') in g.flt else 0
                if i > 0:
                    e.a['xlink:href'] = '#' + g.flt[self.r.randrange(i)]
            elif k == 4:
                e.k = [E('feColorMatrix', dict([('values', '1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0')] + self.pick([], [('in', 'SourceGraphic')], [('in', 'SourceAlpha')], [('in', 'b')]),
                                               **{'type': 'matrix'}))]
                if self.r.random() < 0.3:
                    e.k.append(blur())
            elif k == 5:
                e.k = [E('feColorMatrix', {'type': self.pick('saturate', 'hueRotate'), 'values': self.pick('0.5', '1', '0')}), E('feComposite', {'operator': self.pick('over', 'in', 'arithmetic'), 'in2': 'SourceGraphic', 'k1': '0.5'})]
            elif k == 6:
                e.k = [E('feComponentTransfer', {}, [E('feFuncR', {'type': 'linear', 'slope': '0.5', 'intercept': '0.1'}), E('feFuncA', {'type': 'table', 'tableValues': '0 1 0.5'})]),
                       E('feBlend', {'mode': self.pick('normal', 'multiply'), 'in2': 'SourceGraphic'})]
            else:
                e.k = [E('feTurbulence', {'baseFrequency': '0.05', 'numOctaves': '2', 'type': 'turbulence', 'seed': '3'}), E('feDisplacementMap', {'in': 'SourceGraphic', 'scale': '5', 'xChannelSelector': 'R'}),
                       E('feMorphology', {'operator': 'dilate', 'radius': '1'}), E('feFlood', {'flood-color': self.pick('currentColor', 'red', 'inherit'), 'flood-opacity': g.opac()}), E('feTile')]

    # ---- text
    def o_text(self):
        g = self.g
        host = self.r.choice([e for e, up in self.els if e.t in ('svg', 'g') and not any(u.t in ('defs', 'clipPath', 'mask', 'marker', 'pattern', 'symbol', 'switch') for u in up)])
        k = self.r.randrange(7)
        t = E('text', {'x': g.num(), 'y': g.num()})
        if k == 0:
            i = g.newid('t')
            self.defs.k.append(E('text', {'id': i}, ['referenced']))
            t.k = ['a ', E('tref', {'xlink:href': '#' + i, 'fill': g.color()}), ' b']
        elif k == 1:
            i = g.newid('t')
            self.defs.k.append(E('path', {'id': i, 'd': 'M 5 5 L 50 5 Q 60 6 70 30'}))
            t.k = [E('textPath', {'xlink:href': '#' + i, 'startOffset': self.pick('5', '10%', '0')}, ['along', E('tspan', {'dy': '3'}, ['x'])])]
        elif k == 2:
            t.a.update(x='1 2 3', y='4 5', dx='0 1', rotate='10 20 30')
            t.k = ['lists']
        elif k == 3:
            t.a.update(textLength='40', lengthAdjust=self.pick('spacing', 'spacingAndGlyphs'))
            t.k = ['length']
        elif k == 4:
            t.k = [E('a', {'xlink:href': 'http://e.org', 'fill': 'blue'}, ['link']), ' after']
        elif k == 5:
            t.a['xml:space'] = self.space    # (findings: mixed values inside of a text)
            t.k = ['  two  spaces ', E('tspan', {}, ['  x  ']), ' ']
        else:
            t.k = [E('tspan', {}, ['a']), ' ', E('tspan', {'display': self.pick('none', 'inline')}, ['b']), E('tspan', {'visibility': 'hidden'}, ['c']), E('tspan'), ' d ']
        g.styled(t)
        g.finish(t)
        host.k.insert(self.r.randint(0, len(host.k)), t)

    def o_textprops(self):
        es = self.some('g', 'svg', 'text', 'tspan', *SHAPES)
        for e in es:
            k, v = self.pick(('direction', 'rtl'), ('writing-mode', 'tb'), ('unicode-bidi', 'embed'), ('text-decoration', 'underline'), ('dominant-baseline', 'middle'), ('alignment-baseline', 'middle'),
                             ('baseline-shift', '5'), ('word-spacing', '3'), ('kerning', '0'), ('font-variant', 'small-caps'), ('font-size-adjust', '0.5'), ('glyph-orientation-vertical', '90'),
                             ('text-anchor', 'end'), ('letter-spacing', '0'), ('font-family', 'Arial, serif'), ('font-style', 'oblique'), ('text-decoration', 'none'))
            if k in ('text-decoration', 'dominant-baseline') and e.t not in ('text', 'tspan'):
                continue        # whether text inherits the lines of groups depends on the version of CSS
            if k in e.style:
                continue
            e.a[k] = v

    def o_fonts(self):
        """an SVG font for the texts (findings: font-escape, font-all)"""
        g = self.g
        face = E('font-face', {'font-family': 'Own'}, [])
        for k, v in (('font-style', ('normal', 'italic')), ('font-weight', ('normal', 'bold', '400')), ('font-variant', ('normal', 'small-caps')),
                     ('font-stretch', ('normal', 'condensed')), ('font-size', ('12', '10')), ('units-per-em', ('1000', '2048')), ('slope', ('0', '1', '-10')),
                     ('ascent', ('700', '0')), ('descent', ('-200',)), ('cap-height', ('0.5',)), ('panose-1', ('0 0 0 0 0 0 0 0 0 0',)), ('unicode-range', ('U+0020-007F',))):
            if self.r.random() < 0.3:
                face.a[k] = self.pick(*v)
        glyph = lambda t, a: E(t, dict(a, **({'d': g.path()} if self.r.random() < 0.8 else {})))
        f = E('font', {'horiz-adv-x': self.pick('500', '0', '10.5')}, [face, glyph('missing-glyph', {})])
        for ch in ('a', 'b', 'fi')[:self.r.randint(1, 3)]:
            e = glyph('glyph', {'unicode': ch, 'glyph-name': 'n' + str(len(ch))})
            if self.r.random() < 0.3:
                e.a['horiz-adv-x'] = self.pick('0', '300', '.5')
            f.k.append(e)
        if self.r.random() < 0.5:
            f.k.append(E(self.pick('hkern', 'vkern'), {'u1': 'a', 'u2': 'b', 'k': self.pick('0', '20', '-3.5')}))
        if self.r.random() < 0.4:
            f.a[self.pick('horiz-origin-x', 'vert-adv-y', 'vert-origin-x')] = self.pick('0', '5')
        self.pick(self.defs, self.root).k.append(f)
        for e in self.some('text', 'g', 'tspan', p=0.4):
            e.style.pop('font-family', None)
            e.a['font-family'] = 'Own'
            if self.r.random() < 0.4:
                self.drop(e, 'font-style')
                e.a['font-style'] = self.pick('italic', 'normal')

    def o_xmlspace(self):
        for e in self.some('svg', 'g', 'text', 'rect', p=0.3):
            e.a['xml:space'] = self.space

    # ---- root
    def o_root(self):
        k, v = self.pick(('opacity', '0.5'), ('fill', 'red'), ('display', 'inline'), ('visibility', 'hidden'), ('overflow', 'visible'), ('overflow', 'hidden'), ('color', 'blue'), ('font-size', '20'),
                         ('stroke-width', '5'), ('viewBox', '0 0 50 50'), ('preserveAspectRatio', 'none'), ('preserveAspectRatio', 'xMidYMid meet'), ('width', '100%'), ('height', '50mm'), ('x', '0'),
                         ('clip-rule', 'evenodd'), ('stroke', 'none'), ('baseProfile', 'full'), ('contentScriptType', 'text/ecmascript'), ('zoomAndPan', 'magnify'))
        self.drop(self.root, k)
        self.root.a[k] = v


def document(seed, **prof):
    g = Gen(seed, **prof)
    root = g.doc()
    t = root.text('') + '\n'
    if 'xmlns:ext' in root.a:
        r = g.r
        if r.random() < 0.3:
            t += '<!-- end -->\n'
        if r.random() < 0.4:
            t = '<!-- top -->\n' + t
        if r.random() < 0.5:
            t = '<?xml version="1.0" encoding="UTF-8"%s?>\n' % r.choice(['', ' standalone="no"']) + t
    if '<use' in t:
        # currentColor inside of what a use renders: known finding
        t = t.replace('currentColor', 'green')
    return t


# ---------------------------------------------------------------- documents that must (not) be refused
EVENTS = ['onload', 'onclick', 'onmouseover', 'onmousedown', 'onmouseup', 'onmousemove', 'onmouseout', 'onactivate', 'onfocusin',
          'onfocusout', 'onbegin', 'onend', 'onrepeat', 'onabort', 'onerror', 'onresize', 'onscroll', 'onunload', 'onzoom']
ANIM = ['animate', 'animateColor', 'animateMotion', 'animateTransform', 'set']


def _els(root):
    out = []

    def walk(e, anc):
        if not isinstance(e, str):
            out.append((e, anc))
            for c in e.k:
                walk(c, anc + [e])
    walk(root, [])
    return out


def offend(g, root, bad):
    """put offending content (or content that only looks like it) somewhere; its kind"""
    r = g.r
    els = _els(root)
    svgels = [(e, anc) for e, anc in els if ':' not in e.t and e.t != 'bogus' and e.t not in ('style',)
              and not any(':' in x.t or x.t == 'bogus' for x in anc)]
    holders = [e for e, anc in svgels if e.t in ('svg', 'g', 'defs', 'a', 'switch', 'symbol', 'clipPath', 'mask', 'pattern', 'marker', 'rect',
                                                 'path', 'circle', 'use', 'linearGradient', 'radialGradient', 'stop', 'filter', 'feGaussianBlur', 'text')]
    e = r.choice(holders)
    x = r.choice([y for y, _ in svgels])

    def put(h, c):
        h.k.insert(r.randint(0, len(h.k)), c)

    def decor(a):
        """attributes which change nothing about the element being there"""
        ids = [y.a['id'] for y, _ in svgels if 'id' in y.a]
        if ids and r.random() < 0.3:
            a['xlink:href'] = '#' + r.choice(ids)
        for nm, vs in (('id', [None]), ('class', ['c1']), ('display', ['none']), ('visibility', ['hidden']), ('begin', ['indefinite', '1s', 'x.click']),
                       ('fill', ['freeze', 'none']), ('style', ['display:none']), ('xml:space', ['preserve']), ('transform', ['scale(2)'])):
            if r.random() < 0.12 and nm not in a:
                a[nm] = r.choice(vs) or g.newid('x')
        return a
    if bad:
        kind = r.choice(['script', 'anim', 'anim', 'event', 'event', 'cond', 'link', 'link', 'inherit', 'loop', 'loop'])
        if kind == 'script':
            put(e, E('script', decor(r.choice([{}, {'type': 'text/ecmascript'}, {'id': g.newid('x')}])), r.choice([[], ['a()'], ['var x = 1;']])))
        elif kind == 'anim':
            put(e, E(r.choice(ANIM), decor(r.choice([{}, {'attributeName': 'x', 'to': '5'}, {'attributeName': 'fill', 'to': 'red', 'dur': '1s'},
                                                     {'attributeName': 'transform', 'type': 'rotate', 'from': '0', 'to': '90'}])),
                     r.choice([[], [], [E('title', k=['a'])], [E('mpath', {'xlink:href': '#' + g.newid('m')})]])))
        elif kind == 'event':
            x.a[r.choice(EVENTS)] = r.choice(['a()', '', 'alert(1)', 'x'])
        elif kind == 'cond':
            x.a[r.choice(['requiredFeatures', 'systemLanguage'])] = r.choice(['en', 'http://www.w3.org/TR/SVG11/feature#Text', 'x', 'de, en'])
        elif kind == 'link':
            h = r.choice([y for y in holders if y.t in ('svg', 'g', 'defs', 'symbol', 'mask', 'a')])
            t = r.choice(['use', 'use', 'linearGradient', 'radialGradient', 'pattern', 'filter', 'tref', 'textPath', 'cursor', 'mpath', 'altGlyph',
                          'glyphRef', 'rect', 'g', 'text', 'feFlood', 'symbol', 'svg', 'clipPath', 'mask'])
            c = E(t, {'xlink:href': r.choice(['o.svg#a', 'http://example.com/x.svg', 'b.svg', 'x', 'data:image/svg+xml;base64,AAAA', '../a.svg#b'])})
            if r.random() < 0.3:
                c.a['id'] = g.newid('x')
            put(h, c)
        elif kind == 'inherit':
            nm = r.choice(['fill', 'stroke', 'stroke-width', 'opacity', 'clip-path', 'font-size', 'color', 'visibility', 'stroke-dasharray', 'stroke-opacity'])
            for y, _ in els:
                y.a.pop(nm, None)
                y.style.pop(nm, None)
            put(e if e.t not in ('text', 'stop', 'feGaussianBlur') else root, E(r.choice(['rect', 'g', 'path', 'use']), {nm: 'inherit'}))
        else:
            n = r.randint(1, 4)
            t = r.choice(['linearGradient', 'radialGradient', 'linearGradient', 'use', 'pattern', 'clipPath', 'mask', 'filter'])
            if t in ('use', 'pattern', 'clipPath', 'mask', 'filter'):
                n = min(n, 2)
            ids = [g.newid('x') for _ in range(n)]
            h = r.choice([y for y in holders if y.t in ('svg', 'g', 'defs')])
            ns = []
            for i, d in enumerate(ids):
                tgt = ids[(i + 1) % n]
                c = E(t, {'id': d})
                if t in ('clipPath', 'mask'):
                    c.a['clip-path' if t == 'clipPath' else 'mask'] = 'url(#%s)' % tgt
                else:
                    c.a['xlink:href'] = '#' + tgt
                ns.append(c)
            r.shuffle(ns)
            for c in ns:
                put(h, c)
        return kind
    kind = r.choice(['emptycond', 'ext', 'foreignevent', 'foreignscript', 'allowed', 'names', 'comment', 'inherit', 'chain', 'missing'])
    if kind == 'emptycond':
        x.a[r.choice(['requiredFeatures', 'systemLanguage'])] = ''
    elif kind == 'ext':
        x.a['requiredExtensions'] = r.choice(['', 'http://x'])
    elif kind == 'foreignevent':
        root.a['xmlns:ext'] = 'http://ext'
        x.a[r.choice(['onfoo', 'ext:onload', 'on', 'data-onclick', 'ontouch', 'once'])] = 'a()'
    elif kind == 'foreignscript':
        root.a['xmlns:ext'] = 'http://ext'
        h = r.choice([y for y in holders if y.t in ('svg', 'g', 'defs')])
        put(h, E(r.choice(['ext:script', 'ext:animate', 'ext:set', 'scripts', 'Script', 'animated', 'sets']), {}, r.choice([[], ['a()']])))
    elif kind == 'allowed':
        h = r.choice([y for y in holders if y.t in ('svg', 'g')])
        u = r.choice(['http://example.com', 'o.svg', 'x', 'a.png', 'data:image/png;base64,AAAA'])
        put(h, r.choice([E('a', {'xlink:href': u}, [E('rect', {'width': '5', 'height': '5'})]), E('image', {'xlink:href': u, 'width': '5', 'height': '5'}),
                         E('filter', {'id': g.newid('f')}, [E('feImage', {'xlink:href': u})]),
                         E('font', {'horiz-adv-x': '10'}, [E('font-face', {'font-family': 'X'}, [E('font-face-src', {}, [E('font-face-uri', {'xlink:href': u})])])])]))
    elif kind == 'names':
        h = r.choice([y for y in holders if y.t in ('svg', 'g')])
        put(h, E('rect', {'id': g.pick('script', 'onload', 'set', 'animate'), 'width': '5', 'height': '5', 'class': 'onclick script'}))
    elif kind == 'comment':
        h = r.choice([y for y in holders if y.t in ('svg', 'g')])
        put(h, '<!-- <script>a()</script> onload="a()" <animate/> -->')
        put(root, E('title', k=['script set onload=&quot;a()&quot; &lt;script&gt;']))
    elif kind == 'inherit':
        h = r.choice([y for y in holders if y.t in ('svg', 'g')])
        nm = r.choice(['fill', 'stroke', 'stroke-width', 'fill-opacity', 'stroke-linejoin'])
        q = E('g', {nm: g.prop(nm) if 'url' not in g.prop(nm) else 'red'}, [E('g', {}, [E('rect', {nm: 'inherit', 'width': '5', 'height': '5'})])])
        if 'url' in q.a[nm] or q.a[nm] == 'currentColor':
            q.a[nm] = 'red'
        put(h, q)
    elif kind == 'chain':
        ids = [g.newid('x') for _ in range(r.randint(2, 5))]
        t = r.choice(['linearGradient', 'radialGradient', 'pattern', 'use', 'filter'])
        h = r.choice([y for y in holders if y.t in ('svg', 'g', 'defs')])
        ns = []
        for i, d in enumerate(ids):
            c = E(t, {'id': d})
            if i + 1 < len(ids):
                c.a['xlink:href'] = '#' + ids[i + 1]
            ns.append(c)
        r.shuffle(ns)
        for c in ns:
            put(h, c)
    else:
        h = r.choice([y for y in holders if y.t in ('svg', 'g')])
        put(h, r.choice([E('rect', {'fill': 'url(#nosuch)', 'width': '5', 'height': '5'}), E('rect', {'clip-path': 'url(#nosuch)', 'width': '5', 'height': '5'}),
                         E('rect', {'fill': 'url(#nosuch) red', 'width': '5', 'height': '5'})]))
    return kind


def offending(seed, bad, **prof):
    g = Gen(seed, **prof)
    root = g.doc()
    kind = offend(g, root, bad)
    return kind, root.text('') + '\n'


# ---------------------------------------------------------------- anything at all
SOUP_TAGS = ['a', 'altGlyph', 'circle', 'clipPath', 'color-profile', 'cursor', 'defs', 'desc', 'ellipse', 'feBlend', 'feColorMatrix',
             'feComponentTransfer', 'feComposite', 'feFlood', 'feFuncA', 'feGaussianBlur', 'feImage', 'feMerge', 'feMergeNode', 'feOffset', 'feTile',
             'filter', 'font', 'font-face', 'foreignObject', 'g', 'glyph', 'hkern', 'image', 'line', 'linearGradient', 'marker', 'mask', 'metadata',
             'path', 'pattern', 'polygon', 'polyline', 'radialGradient', 'rect', 'stop', 'style', 'svg', 'switch', 'symbol', 'text', 'textPath',
             'title', 'tref', 'tspan', 'use', 'view', 'x:foo', 'bogus']
SOUP_HOT = ['g', 'g', 'use', 'use', 'linearGradient', 'linearGradient', 'radialGradient', 'stop', 'stop', 'path', 'path', 'rect', 'text', 'tspan',
            'clipPath', 'mask', 'filter', 'feGaussianBlur', 'marker', 'pattern', 'symbol', 'svg', 'defs', 'defs', 'circle', 'polygon', 'line', 'ellipse']
SOUP_NUM = ['0', '1', '-1', '10', '0.5', '-0', '1e3', '1e-5', '1e30', '-1e30', '0.0000000001', '99999999999', '50%', '-5%', '1em', '2ex', '3mm', '5px', '+7', '.5', '5.']
SOUP_BAD = ['', ' ', 'foo', '1 2', '1,', 'NaN', 'inf', '1e', '--1', '#', 'url(', 'url(#)', '1px2', '\u00e9']


class Soup:
    def __init__(self, seed, invalid=0.05, hot=0.6):
        self.r = random.Random(seed)
        self.inv = invalid
        self.hot = hot
        self.ids = ['i%d' % k for k in range(self.r.randint(1, 9))]
        self.used = set()

    def num(self):
        r = self.r
        if r.random() < 0.6:
            return str(r.randint(-5, 40))
        return r.choice(SOUP_NUM)

    def color(self, nm='fill'):
        v = self.r.choice(['red', '#fff', '#123456', 'none', 'currentColor', 'inherit', 'rgb(1,2,3)', 'rgb(10%,20%,30%)', 'rgb(300,0,0)',
                           'url(#%s)' % self.r.choice(self.ids), 'url(#%s)' % self.r.choice(self.ids),
                           'url(#no)', 'url(#no) none', 'url(#no) red'])
        if self.r.random() < self.inv:
            return self.r.choice(['transparent', 'icc-color(x)', 'url(#%s) red' % self.r.choice(self.ids), v])
        if nm not in ('fill', 'stroke') and v[0] not in '#ri':
            return 'red'
        return v

    def path(self):
        r = self.r
        out = ['M %s %s' % (self.num(), self.num())] if r.random() < 0.9 else []
        n = dict(m=2, l=2, h=1, v=1, c=6, s=4, q=4, t=2, z=0)
        for _ in range(r.randint(0, 7)):
            c = r.choice('MmLlHhVvCcSsQqTtAaZz')
            if c in 'Aa':
                out.append('%s %s %s %s %d %d %s %s' % (c, self.num(), self.num(), self.num(), r.randint(0, 1), r.randint(0, 1), self.num(), self.num()))
            else:
                k = n[c.lower()]
                if k and r.random() < 0.3:
                    k *= 2
                if r.random() < self.inv:
                    k = max(0, k - 1)
                out.append(c + ' ' + ' '.join(self.num().rstrip('%emxp') or '0' for _ in range(k)))
        return ' '.join(out)

    def ts(self):
        r = self.r
        n = lambda k: ' '.join(self.num().rstrip('%emxp') or '0' for _ in range(k))      # noqa: E731
        return ' '.join(r.choice([lambda: 'translate(%s)' % n(2), lambda: 'scale(%s)' % n(1), lambda: 'scale(%s)' % n(2), lambda: 'rotate(%s)' % n(1),
                                  lambda: 'rotate(%s)' % n(3), lambda: 'skewX(%s)' % n(1), lambda: 'matrix(%s)' % n(6), lambda: 'matrix(0 0 0 0 0 0)',
                                  lambda: 'scale(0)', lambda: 'translate(1)', lambda: 'scale(1 1)'])() for _ in range(r.choice([1, 1, 1, 2, 3])))

    def attr(self, t):
        """(name, value)"""
        r = self.r
        k = r.random()
        bad = r.random() < self.inv
        if k < 0.12:
            nm = r.choice(['fill', 'fill', 'fill', 'stroke', 'stroke', 'stop-color', 'flood-color', 'color', 'lighting-color'])
            v = self.color(nm)
        elif k < 0.3:
            nm = r.choice(['x', 'y', 'width', 'height', 'cx', 'cy', 'r', 'rx', 'ry', 'x1', 'y1', 'x2', 'y2', 'fx', 'fy', 'offset', 'stroke-width', 'opacity',
                           'fill-opacity', 'stroke-opacity', 'stop-opacity', 'stroke-miterlimit', 'stroke-dashoffset', 'font-size', 'refX', 'markerWidth',
                           'dx', 'dy', 'rotate', 'textLength', 'letter-spacing', 'startOffset', 'markerHeight'])
            v = self.num()
        elif k < 0.4:
            nm, v = 'transform', self.ts()
            if 'radient' in t and r.random() < 0.8:
                nm = 'gradientTransform'
            elif t == 'pattern' and r.random() < 0.8:
                nm = 'patternTransform'
        elif k < 0.55:
            nm, v = 'xlink:href', '#' + r.choice(self.ids + ['no'])
            if t in ('a', 'image', 'feImage'):
                v = r.choice(['x.png', v])
        elif k < 0.65:
            nm = r.choice(['clip-path', 'mask', 'filter', 'marker-start', 'marker-mid', 'marker-end', 'marker', 'cursor'])
            v = r.choice(['url(#%s)' % r.choice(self.ids), 'url(#%s)' % r.choice(self.ids), 'none', 'inherit', 'url(#no)'])
        elif k < 0.7:
            nm = r.choice(['points', 'viewBox', 'stroke-dasharray', 'stdDeviation', 'values', 'tableValues', 'kernelMatrix', 'baseFrequency'])
            v = r.choice(['none', '0', '1 2 3 4', '1 2 3', '0 0 10 10', '1,2,3,4,5,6', ' '.join(self.num() for _ in range(r.randint(0, 6)))])
            if nm in ('points', 'viewBox'):
                v = ' '.join(re.sub('[^0-9.-]', '', w) or '0' for w in v.split())
        elif k < 0.86:
            nm, v = r.choice([('display', 'none'), ('display', 'inline'), ('visibility', 'hidden'), ('visibility', 'visible'), ('visibility', 'inherit'),
                              ('overflow', 'hidden'), ('overflow', 'visible'), ('overflow', 'inherit'), ('fill-rule', 'evenodd'), ('clip-rule', 'nonzero'),
                              ('gradientUnits', 'userSpaceOnUse'), ('gradientUnits', 'objectBoundingBox'), ('spreadMethod', 'pad'), ('spreadMethod', 'reflect'),
                              ('clipPathUnits', 'objectBoundingBox'), ('maskUnits', 'userSpaceOnUse'), ('patternUnits', 'userSpaceOnUse'),
                              ('primitiveUnits', 'objectBoundingBox'), ('filterUnits', 'userSpaceOnUse'), ('preserveAspectRatio', 'none'),
                              ('preserveAspectRatio', 'xMidYMid slice'), ('stroke-linecap', 'round'), ('stroke-linejoin', 'bevel'), ('font-family', "Arial, 'A B'"),
                              ('font-weight', 'bold'), ('font-style', 'italic'), ('text-anchor', 'middle'), ('baseline-shift', 'super'), ('baseline-shift', '5'),
                              ('xml:space', 'preserve'), ('class', 'c1 c2'), ('class', 'zz'), ('type', 'matrix'), ('in', 'SourceGraphic'), ('in', 'b'),
                              ('result', 'b'), ('enable-background', 'new'), ('enable-background', 'accumulate'), ('color-interpolation-filters', 'sRGB'),
                              ('orient', 'auto'), ('markerUnits', 'userSpaceOnUse'), ('version', '1.1'), ('unicode', 'a'), ('opacity', 'inherit'),
                              ('font', 'bold 12px Arial'), ('stroke', 'inherit'), ('fill', 'inherit'), ('mask', 'inherit'), ('filter', 'inherit')])
        elif k < 0.95:
            nm = 'style'
            v = ';'.join('%s:%s' % self.attr0() for _ in range(r.randint(0, 4))) + r.choice(['', ';', ';;', ' '])
        else:
            nm, v = r.choice(['x:y', 'foo', 'data-z', 'xml:lang', 'externalResourcesRequired', 'tabindex', 'xlink:title', 'xlink:show']), 'v'
        if bad:
            v = r.choice(SOUP_BAD)
        return nm, v

    def attr0(self):
        while True:
            nm, v = self.attr('g')
            if nm not in ('style', 'xlink:href', 'transform', 'class', 'points', 'viewBox') and ';' not in v:
                return nm, v

    def node(self, depth, parent):
        r = self.r
        if parent.endswith('Gradient') and r.random() < 0.8:
            t = 'stop'
        elif parent in ('text', 'tspan') and r.random() < 0.7:
            t = 'tspan'
        elif parent == 'filter' and r.random() < 0.8:
            t = r.choice(['feGaussianBlur', 'feOffset', 'feMerge', 'feColorMatrix', 'feFlood', 'feImage', 'feComponentTransfer'])
        else:
            t = r.choice(SOUP_HOT) if r.random() < self.hot else r.choice(SOUP_TAGS)
        a = {}
        if t == 'stop':
            a['offset'] = r.choice(['0', '1', '0.5', '50%', '100%', self.num()])
        elif t == 'path':
            a['d'] = self.path()
        elif t == 'use' or (t.endswith('Gradient') and r.random() < 0.5):
            a['xlink:href'] = '#' + r.choice(self.ids)
        elif t in ('polyline', 'polygon'):
            a['points'] = ' '.join(str(r.randint(-5, 40)) for _ in range(r.randint(0, 8)))
        elif t == 'rect':
            a.update(width=self.num(), height=self.num())
        free = [i for i in self.ids if i not in self.used]
        if free and r.random() < 0.5:
            a['id'] = r.choice(free)
            self.used.add(a['id'])
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            nm, v = self.attr(t)
            if nm not in a:
                a[nm] = v
        kids = []
        if depth > 0:
            for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if t not in ('g', 'svg', 'defs') else r.randint(0, 4)):
                kids.append(self.node(depth - 1, t))
        if t in ('text', 'tspan', 'title', 'desc', 'a', 'textPath', 'tref', 'x:foo') or r.random() < 0.03:
            for _ in range(r.choice([0, 1, 1, 2])):
                kids.insert(r.randint(0, len(kids)), r.choice(['word', ' a  b ', '\n', '&lt;', '<![CDATA[x]]>', '<!-- c -->', '\u00e9\u4e2d', '&#10;', '  ']))
        if t == 'style':
            kids = [r.choice(['rect{fill:red}', '.c1{stroke:blue}', '#i1{opacity:0.5}', '*{fill:none}', 'g rect{fill:red}', 'rect:hover{fill:red}', '',
                              '/* c */', 'a{', '@import url(x);', 'rect{fill:red;}.c2{font:x}', '<![CDATA[rect{fill:red}]]>'])]
            a.pop('type', None)
            if r.random() < 0.5:
                a['type'] = 'text/css'
        e = '<' + t + ''.join(' %s="%s"' % (k, esc(v)) for k, v in a.items())
        return e + '/>' if not kids else e + '>' + ''.join(kids) + '</' + t + '>'

    def text(self):
        r = self.r
        a = ''.join(' %s="%s"' % (k, esc(v)) for k, v in dict(self.attr('svg') for _ in range(r.choice([0, 0, 1, 2]))).items() if k not in ('xlink:href',))
        s = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:x="http://x"%s>%s</svg>' % (
            a, ''.join(self.node(r.randint(1, 5), 'svg') for _ in range(r.randint(0, 8))))
        k = r.random()
        if k < 0.1:
            s = '<?xml version="1.0"?>' + s
        if k < 0.05:
            s = s.replace('<svg', '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd" [<!ENTITY e "val"> <!ENTITY f "#f00">]><svg', 1)
            s = s.replace('="red"', '="&f;"', 1)
        return s


def soup(seed, **kw):
    return Soup(seed, **kw).text()


def mutate(r, s):
    """damage a text"""
    for _ in range(r.choice([1, 1, 2, 4])):
        if not s:
            return s
        i = r.randrange(len(s))
        j = min(len(s), i + r.choice([1, 1, 2, 5, 20]))
        k = r.random()
        if k < 0.3:
            s = s[:i] + s[j:]
        elif k < 0.5:
            s = s[:i] + s[i:j] * 2 + s[j:]
        elif k < 0.75:
            s = s[:i] + r.choice(['<', '>', '"', "'", '&', ';', '/', '0', '-', '.', 'e', ' ', '#', '(', ')', '%', '\u00e9', '\x00', '<!--', ']]>', '&#0;', '<?', 'url(#i1)', '{', '}']) + s[j:]
        elif k < 0.85:
            s = s[:i]
        else:
            a = r.randrange(len(s))
            s = s[:i] + s[a:a + r.randint(1, 30)] + s[i:]
    return s


def style_links(s):
    """does a style element carry a link, or characters that the CSS parser of the DOM library cannot step over? (known findings)"""
    import re
    if any('url(' in m or 'href' in m for m in re.findall(r'<style\b[^>]*>?', s)):
        return True
    i = s.find('<style')
    j = s.rfind('</style')
    return i >= 0 and not s[i:j if j > i and s.count('<style') == s.count('</style') else len(s)].isascii()
