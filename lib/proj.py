"""SVG text -> abstract document (JSON for TLA+).

This is a *lexer*: it turns XML and attribute strings into the uniform value
records [k, s, n, u] that spec/*.tla interprets.  No SVG semantics here:
cascade, inheritance, path interpretation, transforms and references are all
defined in TLA+.
"""
import re
import xml.parsers.expat as expat

S = 10000
LIM = 10**9

NAMED = None


def _named():
    global NAMED
    if NAMED is None:
        NAMED = dict(black='000000', white='ffffff', red='ff0000', green='008000', lime='00ff00',
                     blue='0000ff', yellow='ffff00', gray='808080', grey='808080', silver='c0c0c0',
                     orange='ffa500', purple='800080', navy='000080', teal='008080', maroon='800000',
                     olive='808000', aqua='00ffff', cyan='00ffff', fuchsia='ff00ff', magenta='ff00ff',
                     pink='ffc0cb', brown='a52a2a', gold='ffd700', tan='d2b48c')
    return NAMED


def num(x):
    v = int(round(float(x) * S))
    return max(-LIM, min(LIM, v))


def val(k, s='', n=(), u=()):
    return {'k': k, 's': s, 'n': list(n), 'u': list(u)}


NUMRE = r'[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?'
LENRE = re.compile(r'\s*(' + NUMRE + r')(em|ex|px|in|cm|mm|pt|pc|%)?\s*,?')


def lex_color(s):
    t = s.strip().lower()
    m = re.fullmatch(r'#([0-9a-f]{6})', t)
    if m:
        return '#' + t[1:]
    m = re.fullmatch(r'#([0-9a-f]{3})', t)
    if m:
        return '#' + ''.join(c * 2 for c in t[1:])
    m = re.fullmatch(r'rgb\(\s*(\d+)\s*,?\s*(\d+)\s*,?\s*(\d+)\s*\)', t)
    if m:
        return '#%02x%02x%02x' % tuple(min(255, int(x)) for x in m.groups())
    m = re.fullmatch(r'rgb\(\s*([\d.]+)%\s*,?\s*([\d.]+)%\s*,?\s*([\d.]+)%\s*\)', t)
    if m:
        return '#%02x%02x%02x' % tuple(min(255, int(round(float(x) * 2.55))) for x in m.groups())
    if t in _named():
        return '#' + _named()[t]
    return None


ARITY = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, A=7, Z=0)


def lex_path(s):
    """Returns (cmds, args, ok): implicit repetitions are expanded (moveto -> lineto)."""
    cmds, args = [], []
    i, n = 0, len(s)
    numre = re.compile(NUMRE)
    ws = re.compile(r'[\s,]*')
    cur = None
    ok = True
    first = True
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            break
        c = s[i]
        if c.upper() in ARITY:
            cur = c
            i += 1
        elif cur is None or cur in 'zZ':
            ok = False
            break
        elif cur == 'M':
            cur = 'L'
        elif cur == 'm':
            cur = 'l'
        if first and cur not in 'mM':
            ok = False
            break
        first = False
        need = ARITY[cur.upper()]
        vals = []
        good = True
        for k in range(need):
            i = ws.match(s, i).end()
            if cur in 'aA' and k in (3, 4):
                if i < n and s[i] in '01':
                    vals.append(int(s[i]) * S)
                    i += 1
                    continue
                good = False
                break
            m = numre.match(s, i)
            if not m:
                good = False
                break
            vals.append(num(m.group()))
            i = m.end()
        if not good:
            ok = False
            break
        cmds.append(cur)
        args += vals
    return cmds, args, ok


TSRE = re.compile(r'[\s,]*([A-Za-z]+)\s*\(([^)]*)\)')


def lex_ts(s):
    u, n = [], []
    i = 0
    while i < len(s):
        m = TSRE.match(s, i)
        if not m:
            return None if s[i:].strip(' \t\r\n,') else (u, n)
        a = [num(x) for x in re.findall(NUMRE, m.group(2))]
        u.append(m.group(1) + str(len(a)))
        n += a
        i = m.end()
    return u, n


URLRE = re.compile(r"""\s*url\(\s*['"]?#([^'")\s]*)['"]?\s*\)\s*(.*)$""", re.S)

COLORP = {'fill', 'stroke', 'stop-color', 'flood-color', 'lighting-color', 'color'}
URLP = {'clip-path', 'mask', 'filter', 'marker', 'marker-start', 'marker-mid', 'marker-end', 'fill', 'stroke', 'cursor'}
LEN1 = {'width', 'height', 'cx', 'cy', 'r', 'rx', 'ry', 'x1', 'y1', 'x2', 'y2', 'fx', 'fy',
        'stroke-width', 'stroke-dashoffset', 'font-size', 'letter-spacing', 'word-spacing', 'kerning',
        'markerWidth', 'markerHeight', 'refX', 'refY', 'startOffset', 'textLength', 'baseline-shift',
        'opacity', 'fill-opacity', 'stroke-opacity', 'stop-opacity', 'flood-opacity', 'offset',
        'stroke-miterlimit', 'surfaceScale', 'specularConstant', 'specularExponent', 'diffuseConstant',
        'scale', 'seed', 'numOctaves', 'k1', 'k2', 'k3', 'k4', 'slope', 'intercept', 'amplitude', 'exponent',
        'bias', 'divisor', 'azimuth', 'elevation', 'limitingConeAngle', 'z', 'pointsAtX', 'pointsAtY', 'pointsAtZ',
        'pathLength', 'font-size-adjust',
        'horiz-adv-x', 'horiz-origin-x', 'horiz-origin-y', 'vert-adv-y', 'vert-origin-x', 'vert-origin-y', 'units-per-em',
        'ascent', 'descent', 'cap-height', 'x-height', 'accent-height', 'stemv', 'stemh', 'k', 'alphabetic', 'mathematical',
        'underline-position', 'underline-thickness'}
LENL = {'x', 'y', 'dx', 'dy', 'rotate', 'points', 'viewBox', 'stroke-dasharray', 'stdDeviation', 'values',
        'tableValues', 'kernelMatrix', 'baseFrequency', 'radius', 'order', 'kernelUnitLength'}
TSP = {'transform', 'gradientTransform', 'patternTransform'}


def lex_list(s):
    out_n, out_u = [], []
    i = 0
    while i < len(s):
        m = LENRE.match(s, i)
        if not m or m.end() == i:
            return None if s[i:].strip() else (out_n, out_u)
        out_n.append(num(m.group(1)))
        u = m.group(2) or ''
        out_u.append('' if u == 'px' else u)
        i = m.end()
    return out_n, out_u


def lex_value(name, raw, ns=True):
    t = raw.strip()
    if name == 'd':
        c, a, ok = lex_path(raw)
        return val('path', '' if ok else 'err', a, c)
    if name in TSP:
        r = lex_ts(t)
        if r is not None:
            return val('ts', '', r[1], r[0])
        return val('str', t)
    if name in URLP:
        m = URLRE.match(raw)
        if m:
            fb = m.group(2).strip()
            if fb in ('none', 'currentColor'):
                return val('url', m.group(1), (), (fb,))
            if fb:
                return val('url', m.group(1), (), (lex_color(fb) or fb,))
            return val('url', m.group(1))
    if name in COLORP:
        c = lex_color(t)
        if c:
            return val('col', c)
        return val('kw', t)
    if name in LEN1 or name in LENL:
        r = lex_list(t)
        if r is not None and r[0]:
            return val('num', '', r[0], r[1])
        return val('kw', t)
    if name in ('xlink:href', 'href') and t.startswith('#'):
        return val('ref', t[1:])
    if re.fullmatch(r'[a-zA-Z][a-zA-Z0-9-]*', t):
        return val('kw', t)
    return val('str', t)


def split_decls(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    out = []
    for d in re.split(r''';(?=(?:[^'"]|'[^']*'|"[^"]*")*$)''', s):
        if ':' in d:
            k, v = d.split(':', 1)
            v = v.strip()
            out.append((k.strip(), v))
    return out


def lex_css(text):
    """Simple selectors only; returns a list of rules (None if anything else is met)."""
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    rules = []
    for m in re.finditer(r'([^{}]+)\{([^{}]*)\}', text):
        decl = {}
        for k, v in split_decls(m.group(2)):
            if k == 'marker':
                for kk in ('marker-start', 'marker-mid', 'marker-end'):
                    decl[kk] = lex_value(kk, v)
            else:
                decl[k] = lex_value(k, v)
        for sel in m.group(1).split(','):
            sel = sel.strip()
            if sel == '*':
                rules.append({'k': 'any', 'v': '', 'd': decl})
            elif re.fullmatch(r'[A-Za-z][\w-]*', sel):
                rules.append({'k': 'tag', 'v': sel, 'd': decl})
            elif re.fullmatch(r'\.[\w-]+', sel):
                rules.append({'k': 'class', 'v': sel[1:], 'd': decl})
            elif re.fullmatch(r'#[\w-]+', sel):
                rules.append({'k': 'id', 'v': sel[1:], 'd': decl})
            else:
                return None
    return rules


class NotXml(Exception):
    pass


def parse(text):
    """Abstract document.  Node indices are 1-based; node 1 is the root element."""
    if isinstance(text, str):
        data = text.encode('utf-8')
    else:
        data = text
    nodes = []
    stack = []
    misc = {'comments': [], 'decl': False, 'doctype': False, 'pi': 0, 'cdata': 0}
    p = expat.ParserCreate('UTF-8')
    p.ordered_attributes = True
    p.buffer_text = True
    p.namespace_prefixes = False

    def start(name, attrs):
        a, y, c = {}, {}, []
        raw = {}
        for i in range(0, len(attrs), 2):
            k, v = attrs[i], attrs[i + 1]
            raw[k] = v
            if k == 'style':
                for dk, dv in split_decls(v):
                    if dk == 'marker':
                        for kk in ('marker-start', 'marker-mid', 'marker-end'):
                            y[kk] = lex_value(kk, dv)
                    else:
                        y[dk] = lex_value(dk, dv)
            elif k == 'class':
                c = v.split()
            else:
                a[k] = lex_value(k, v)
        nodes.append({'t': name, 'p': stack[-1] if stack else 0, 'a': a, 'y': y, 'c': c,
                      'x': [], 'ch': [], '_raw': raw})
        if stack:
            nodes[stack[-1] - 1]['ch'].append(len(nodes))
        stack.append(len(nodes))

    def end(name):
        stack.pop()

    def chars(d):
        if not stack:
            return
        top = nodes[stack[-1] - 1]
        if top['ch'] and nodes[top['ch'][-1] - 1]['t'] == '#text':
            nodes[top['ch'][-1] - 1]['x'] += list(d)
            return
        nodes.append({'t': '#text', 'p': stack[-1], 'a': {}, 'y': {}, 'c': [], 'x': list(d), 'ch': [], '_raw': {}})
        top['ch'].append(len(nodes))

    def comment(d):
        misc['comments'].append(stack[-1] if stack else 0)

    def pi(t, d):
        misc['pi'] += 1

    def decl(v, e, s):
        misc['decl'] = True

    def doctype(*a):
        misc['doctype'] = True

    def cdata():
        misc['cdata'] += 1

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.CommentHandler = comment
    p.ProcessingInstructionHandler = pi
    p.XmlDeclHandler = decl
    p.StartDoctypeDeclHandler = doctype
    p.StartCdataSectionHandler = cdata
    try:
        p.Parse(data, True)
    except expat.ExpatError as e:
        raise NotXml(str(e))
    css = []
    for nd in nodes:
        if nd['t'] == 'style' and nd['_raw'].get('type', 'text/css') == 'text/css':
            t = ''.join(''.join(nodes[k - 1]['x']) for k in nd['ch'] if nodes[k - 1]['t'] == '#text')
            r = lex_css(t)
            if r is None:
                misc['css_unsupported'] = True
            else:
                css += r
    # '#text' nodes consisting of white space only carry no meaning outside of text content
    return {'n': nodes, 'css': css, 'misc': misc}


TEXT_CONTENT = {'text', 'tspan', 'tref', 'textPath', 'altGlyph', 'a'}


def ns_ok(text):
    """every prefix is declared"""
    p = expat.ParserCreate('UTF-8', ' ')
    try:
        p.Parse(text.encode('utf-8') if isinstance(text, str) else text, True)
    except expat.ExpatError:
        return False
    return True


def slim(doc, alltext=False, ns=True):
    """Drop what the specification never looks at (keeps traces small)."""
    out = []
    for nd in doc['n']:
        o = {k: nd[k] for k in ('t', 'p', 'a', 'y', 'c', 'x', 'ch')}
        if nd['t'] == '#text':
            # only text-content parents keep their characters
            q = nd['p']
            keep = False
            while q:
                if doc['n'][q - 1]['t'] == 'text':
                    keep = True
                    break
                q = doc['n'][q - 1]['p']
            if not keep:
                o['x'] = list(''.join(o['x']).strip()) if alltext else []
        out.append(o)
    m = doc['misc']
    raw = doc['n'][0]['_raw'] if doc['n'] else {}
    return {'n': out, 'css': doc['css'],
            'misc': {'comments': m['comments'], 'decl': m['decl'], 'xlink_ns': 'xmlns:xlink' in raw, 'ns_ok': ns}}
