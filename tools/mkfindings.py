#!/usr/bin/env python3
"""Writes known_findings.txt and findings/ (each finding with the exact input and options)."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {   # commit -> properties
    '9996bfb': 'C05', '237e694': 'C02', '53a3edc': 'C17', 'cde7703': 'C05', '69421bf': 'C06', 'e1b362c': 'C06', '96f32f8': 'C08',
    '2ec5cd8': 'C08', 'e811e90': 'C03', '314059e': 'C06', '957b0c5': 'C14', '7f5bec3': 'C14', '3f49720': 'C04', '864591f': 'C04',
    '2cd0f09': 'C06', 'c4c7680': 'C02', 'e8876ff': 'C02', 'b987618': 'C02', 'e006172': 'C14', '75be9fb': 'C02', '4874958': 'C02',
    '181c5b4': 'C02', 'beb4656': 'C04', '0d83a0b': 'C03', '064ca8d': 'C18', '4e0980c': 'C02', '4153901': 'C12', '0465885': 'C11',
    '40da03d': 'C11', 'c592528': 'C17', '68ae0c5': 'C09', 'fd3affc': 'C16', 'a520c15': 'C09', 'ec36fc7': 'C09', '9902b99': 'C06',
    'fa6da59': 'C03', '6d9616a': 'C17', 'f01ebb8': 'C17', '77fa20c': 'C17', 'bc20480': 'C17', '9e096c7': 'C17', 'c61d509': 'C17',
    'ca49e0b': 'C17', '00317d5': 'C17', '5c54c0a': 'C03', 'af94050': 'C03', 'e6ff0bf': 'C16', 'ee61978': 'C13',
    '0c70660': 'C05', '1fef5a3': 'C02', '24e33da': 'C02', 'dfcfbd3': 'C06', '8fcdb1f': 'C06', 'ea4c074': 'C03', '2a0d311': 'C02', '9b121fc': 'C02',
    '3a37043': 'C18', '0fc1dcf': 'C03', 'd832a01': 'C14', '54948d5': 'C03', '5b4f5b6': 'C03', 'ce78239': 'C03', '5637fe9': 'C18', 'cc1f2c9': 'C18', '6509df0': 'C08', '5f31d7b': 'C06', '8a94743': 'C06', '1351732': 'C06'}
EXTRA = os.path.join(V, 'tools', 'fixed_extra.txt')
H = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">%s</svg>'
G = '<linearGradient id="a"><stop stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient>'
FINDINGS = [   # property, clause, name, options, text, what
    ('C17', 'died', 'css-nonascii', [], H % '<style>.c1{stroke-widté:1}</style><rect class="c1" width="3" height="3"/>',
     'the CSS parser (svgparser) panics on a declaration name with a non-ASCII character'),
    ('C17', 'died', 'style-link', [], H % '<style xlink:href="#r">rect{fill:red}</style><rect id="r" width="3" height="3"/><use xlink:href="#r"/>',
     'a style element that is itself a link leaves a dead reference in the DOM (svgdom) and dropping the document panics'),
    ('C17', 'died', 'entity-loop', [], '<!DOCTYPE svg [<!ENTITY a "&b;"><!ENTITY b "&a;">]><svg xmlns="http://www.w3.org/2000/svg" fill="&a;">&b;</svg>',
     'mutually recursive entities overflow the stack of the parser (svgdom)'),
    ('C17', 'died', 'deep', [], H % ('<g>' * 40000 + '</g>' * 40000), 'elements nested 40000 levels deep overflow the stack (svgdom is recursive)'),
    ('C18', 'picture', 'text-escape', [], H % '<text y="9"><tspan>b</tspan>&lt;<tspan>c</tspan></text>',
     'svgdom does not unescape a character reference in a text element whose first child is an element, and escapes it again when writing'),
    ('C18', 'picture', 'cdata', [], H % '<text y="9">a<![CDATA[<b>]]>c</text>', 'svgdom drops CDATA sections inside text'),
    ('C14', 'picture', 'identity-gts', ['--no-defaults'],
     H % (G.replace('id="a"', 'id="a" gradientTransform="scale(2)"') + '<linearGradient id="b" xlink:href="#a" gradientTransform="scale(1)"/><rect width="30" height="30" fill="url(#b)"/>'),
     'svgdom drops an identity gradientTransform although it overrides the one of the linked gradient'),
    ('C03', 'picture', 'identity-gts', [], None, 'svgdom drops an identity gradientTransform although it overrides the one of the linked gradient'),
    ('C14', 'picture', 'style-vs-link', ['--no-defaults'], H % (G + '<rect width="30" height="30" fill="url(#a)" style="fill:green"/>'),
     'svgdom resolves the links of presentation attributes after the style attribute, so they win over it'),
    ('C14', 'picture', 'css-specificity', ['--no-defaults'], H % '<style>#r{fill:red} rect{fill:blue}</style><rect id="r" width="30" height="30"/>',
     'svgdom applies CSS rules in document order and ignores the specificity of selectors'),
    ('C14', 'refused', 'css-idname', ['--no-defaults'], H % '<style>#é{fill:red}</style><rect id="é" width="30" height="30"/>',
     'the CSS parser (svgparser) refuses an #id selector with a non-ASCII character'),
    ('C14', 'refused', 'css-important', ['--no-defaults'], H % '<style>rect{fill:red !important}</style><rect style="fill:blue" width="30" height="30"/>',
     'svgdom takes !important for a part of the value and refuses the document'),
    ('C14', 'picture', 'stroke-unresolved', ['--no-defaults'], H % '<g stroke="green"><path d="M 1 2 v 9 h 9" stroke="url(#none)"/></g>',
     'svgdom drops a stroke that refers to a missing element, so the inherited stroke is painted'),
    ('C18', 'picture', 'space-mixed', [], H % '<text y="9">  two  spaces <tspan xml:space="preserve">  x  </tspan> </text>',
     'svgdom trims white space of a preserved tspan inside of a text with default white space'),
    ('C18', 'picture', 'space-sibling', [], '<svg xmlns="http://www.w3.org/2000/svg" xml:space="preserve"><g xml:space="default"/><text y="9">a  b</text></svg>',
     'svgdom applies the xml:space of an element to the siblings after it'),
    ('C14', 'picture', 'inherit-through-use', ['--no-defaults'], H % '<g opacity="0.5"><rect id="r" width="9" height="9" opacity="inherit"/></g><use xlink:href="#r"/>',
     'an inherit keyword is resolved where an element stands, not where use elements render it'),
    ('C14', 'refused', 'css-quotes', ['--no-defaults'], H % '''<text y="9" style="font-family:'A B', serif">x</text>''',
     'svgparser refuses a style attribute with a quoted name followed by something else'),
    ('C18', 'picture', 'text-blank', [], H % '<text y="9">a<tspan x="3"> </tspan><tspan>d</tspan></text>',
     'svgdom drops the text of a tspan that holds only blanks'),
    ('C18', 'picture', 'font-escape', ['--no-defaults'], H % '<font><font-face font-family="F"/><glyph unicode="&amp;" d="M 1 2 L 3 4"/></font><text y="9" font-family="F">x</text>',
     'svgdom does not unescape the unicode attribute of a glyph, and escapes it again when writing'),
    ('C18', 'refused', 'font-all', ['--no-defaults'], H % '<font><font-face font-family="F" font-style="all"/></font><text y="9" font-family="F">x</text>',
     'svgdom refuses the value all of the font-style descriptor of a font-face'),
    ('C16', 'picture', 'text-indent', ['--indent=4'], H % '<text y="9"><a xlink:href="http://e.org">a</a><a xlink:href="http://e.org">b</a></text>',
     'svgdom indents the content of a text element that holds only a and textPath elements, which adds spaces'),
]


def main():
    out = ['# Genuine defects. `finding:` lines are reported as KNOWN-FINDING by the checks (identified by the exact',
           '# input and options); `fixed:` lines were repaired in /repo and suppress nothing.  Written by tools/mkfindings.py.']
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '06c270c..HEAD'], stdout=subprocess.PIPE, check=True).stdout.decode()
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        p = FIXED.get(h[:7])
        if not p:
            sys.exit('no property for %s' % line)
        out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
    os.makedirs(os.path.join(V, 'findings'), exist_ok=True)
    for p, cl, n, a, t, what in FINDINGS:
        if t is not None:
            with open(os.path.join(V, 'findings', n + '.svg'), 'w') as f:
                f.write(t)
        out.append('finding: property=%s clause=%s file=%s.svg args=%s %s' % (p, cl, n, ','.join(a) or '-', what))
    with open(os.path.join(V, 'known_findings.txt'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
