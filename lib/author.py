"""Documents written by the author of spec/Author.tla: TLC enumerates them, this writes them as SVG."""
import json
import random
import re
from xml.sax.saxutils import escape, quoteattr

import svgc

DOC = re.compile(r'^"DOC (.*)"$')
HEAD = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="100" height="80">'
EXTRA = {'mk': '<marker id="mk" markerWidth="4" markerHeight="4"><circle r="2"/></marker>',
         'cp': '<clipPath id="cp"><rect width="50" height="9"/></clipPath>'}


WITH = {'flood': '<feFlood flood-color="red"/>',
        'matrix': '<feColorMatrix type="matrix" values="1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0"/>',
        'rect': '<rect x="1" y="2" width="8" height="9"/>', 'stop': '<stop offset="0.3" stop-color="red"/>',
        'stops': '<stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/>'}


def write(doc):
    kids = {}
    refs = set()
    for i, e in enumerate(doc):
        kids.setdefault(e['p'], []).append(i + 1)
        for v in (e['a'] or {}).values():
            refs.update(int(x) for x in re.findall(r'#e(\d+)', v))
    if any(r > len(doc) for r in refs):
        return None           # not finished
    css = []

    def el(i):
        e = doc[i - 1]
        t, a = e['t'], dict(e['a'] or {})
        if t == '#text':
            return escape(a['s'])
        inner = kids.get(i, [])
        if t == 'path' and any(doc[k - 1]['t'] == 'seg' for k in inner):
            a['d'] = ' '.join((doc[k - 1]['a']['c'] + ' ' + doc[k - 1]['a']['n']).strip() for k in inner)
            inner = []
        if 'for' in a:
            return ''.join(el(k) for k in inner)
        style = ';'.join('%s:%s' % (n[2:], v) for n, v in sorted(a.items()) if n.startswith('s:'))
        for n, v in sorted(a.items()):
            if n.startswith('c:'):
                css.append('.c%d{%s:%s}' % (i, n[2:], v))
                a['class'] = 'c%d' % i
        at = {n: v for n, v in a.items() if n[:2] not in ('s:', 'c:')}
        if style:
            at['style'] = style
        if i in refs:
            at['id'] = 'e%d' % i
        body = ''.join(el(k) for k in inner)
        body = WITH[at.pop('with')] + body if 'with' in at else body
        s = ''.join(' %s=%s' % (n, quoteattr(v)) for n, v in sorted(at.items()))
        if t == 'text' and not inner:
            body = 'text'
        return '<%s%s>%s</%s>' % (t, s, body, t) if body else '<%s%s/>' % (t, s)

    body = ''.join(el(i) for i in kids.get(0, []))
    full = body + ' '.join(css)
    defs = ''.join(v for k, v in EXTRA.items() if '#%s)' % k in full)
    if css:
        defs += '<style>%s</style>' % ''.join(css)
    return HEAD + defs + body + '</svg>\n'


def documents(family, size, limit, seed, simulate=None, timeout=300):
    """The documents of a family up to a size (all of them, or `limit` at random), and the
    number TLC enumerated.  simulate: (behaviours, depth) instead of all."""
    env = {'FAMILY': family, 'SIZE': str(simulate[1] if simulate else size)}
    extra = []
    if simulate:
        extra = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1] + 1), '-seed', str(seed)]
    rc, out = svgc.tlc('Author', envv=env, timeout=timeout, mem='4g', extra=extra)
    if rc != 0:
        raise SystemExit('Author: TLC says %s: %s' % (rc, out[-1500:]))
    lines = sorted({m.group(1) for m in map(DOC.match, out.splitlines()) if m})
    n = len(lines)
    if limit and n > limit:
        lines = random.Random('author-%s-%s-%s' % (family, size, seed)).sample(lines, limit)
    res = [write(json.loads(json.loads('"%s"' % x))) for x in lines]
    return [d for d in res if d], n
