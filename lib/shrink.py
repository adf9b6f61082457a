"""Reduce a failing document (used by hand and for replay files)."""
import re
import xml.dom.minidom as md

import proj
import svgc


def cands(text):
    try:
        dom = md.parseString(text)
    except Exception:
        return []
    out = []

    def walk(n, path):
        if n.nodeType != n.ELEMENT_NODE:
            return
        yield n, path
        for i, c in enumerate(n.childNodes):
            for x in walk(c, path + [i]):
                yield x
    nodes = [p for _, p in walk(dom.documentElement, [])]

    def get(d, p):
        n = d.documentElement
        for i in p:
            n = n.childNodes[i]
        return n
    for p in nodes:
        if p:
            d = md.parseString(text)
            n = get(d, p)
            n.parentNode.removeChild(n)
            out.append(d.documentElement.toxml())
            if n.childNodes and n.tagName in ('g', 'a', 'switch', 'svg', 'defs'):
                d = md.parseString(text)
                n = get(d, p)
                par = n.parentNode
                for c in list(n.childNodes):
                    par.insertBefore(c, n)
                par.removeChild(n)
                out.append(d.documentElement.toxml())
        n = get(dom, p)
        for a in list(n.attributes.keys()):
            if a.startswith('xmlns'):
                continue
            d = md.parseString(text)
            m = get(d, p)
            v = m.getAttribute(a)
            m.removeAttribute(a)
            out.append(d.documentElement.toxml())
            if a == 'style' and ';' in v:
                for i, part in enumerate(v.split(';')):
                    d = md.parseString(text)
                    get(d, p).setAttribute(a, ';'.join(x for j, x in enumerate(v.split(';')) if j != i))
                    out.append(d.documentElement.toxml())
            if a == 'd':
                segs = re.findall(r'[A-Za-z][^A-Za-z]*', v)
                for i in range(1, len(segs)):
                    d = md.parseString(text)
                    get(d, p).setAttribute(a, ''.join(segs[:i] + segs[i + 1:]))
                    out.append(d.documentElement.toxml())
    out = [re.sub(r'>\s+<', '><', o) if '<text' not in o else o for o in out]
    def dangling(o):
        return set(re.findall(r'#([A-Za-z]\w*\d)\b', re.sub(r'<style.*?</style>', '', o, flags=re.S))) - set(re.findall(r'\bid="([^"]*)"', o))
    base = dangling(text)
    out = [o for o in dict.fromkeys(out) if o != text and dangling(o) <= base]
    return out


def shrink(text, failing, rounds=40, limit=400):
    """failing(list of texts) -> list of bool"""
    cur = re.sub(r'>\s+<', '><', text) if '<text' not in text else text
    if not failing([cur])[0]:
        cur = text
    for _ in range(rounds):
        c = cands(cur)[:limit]
        c.sort(key=len)
        if not c:
            break
        f = failing(c)
        hits = [x for x, y in zip(c, f) if y]
        if not hits:
            break
        # apply the biggest single reduction
        cur = hits[0]
    return cur
