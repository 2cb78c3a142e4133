"""C03: XML without directives is rendered back as the same document."""
import re
import xml.parsers.expat

from mc import real
from mc.engine import Engine

from .lib import *

ASSUMPTIONS = ['input and output are read with expat without namespace processing']


def split(attrs):
    """Namespace declarations are a set; attributes keep their order."""
    ns = [x for x in attrs if x[0].split(':')[0] == 'xmlns']
    return tuple(sorted(ns)) + tuple(x for x in attrs if x not in ns)


def read(s):
    """Elements, attributes and raw text of everything else; None if not well-formed."""
    ev = []
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = 1
    p.StartElementHandler = lambda n, a: ev.append(('s', n, split(tuple(zip(a[::2], a[1::2])))))
    p.EndElementHandler = lambda n: ev.append(('e', n))

    def raw(d):
        if ev and ev[-1][0] == 't':
            ev[-1] = ('t', ev[-1][1] + d)
        else:
            ev.append(('t', d))
    p.DefaultHandler = raw
    try:
        p.Parse(s, True)
    except xml.parsers.expat.ExpatError:
        return None
    return tuple(ev)


def nswf(ev):
    """Prefixes declared?  (the compiler is namespace aware)"""
    stack = [{'xml', 'xmlns'}]
    for e in ev:
        if e[0] == 's':
            scope = stack[-1] | {k[6:] for k, v in e[2] if k.startswith('xmlns:')}
            if any(k.startswith('xmlns') and (set(v) & set(' \n') or k != 'xmlns' and not v) for k, v in e[2]):
                return False
            stack.append(scope)
            names = [e[1]] + [k for k, _ in e[2]]
            if any(n.count(':') > 1 or (':' in n and n.split(':')[0] not in scope) for n in names):
                return False
        elif e[0] == 'e':
            stack.pop()
    return True


def run(src):
    prog, macros = real.compile_source(src, True, 'page')
    return real.render(prog, macros, Engine({}))


def judge(src, rec):
    exp = read(src)
    if exp is None or not nswf(exp):
        return
    rec.execution(exp)
    try:
        out = run(src)
    except Exception as e:
        return {'problem': 'document rejected: %s: %s' % (type(e).__name__, e), 'source': src}
    got = read(out)
    if got is None:
        return {'problem': 'output is not well-formed', 'source': src, 'output': out}
    if got != exp:
        return {'problem': 'document changed', 'source': src, 'output': out, 'expected': exp, 'actual': got}
    if re.search(r'<([^\s/>]+)([^<>]*[^/<>])?></\1>', out):
        return {'problem': 'empty element not minimized', 'source': src, 'output': out}
    rec.traces += 1
    if run(out) != out:
        return {'problem': 'output is not a fixed point', 'source': src, 'output': out}


DTD = '<!DOCTYPE r [<!ENTITY ent "e">]>'
TOKENS = ['x', '\n ', '<a>', '</a>', '<b/>', '<b></b>', '<p:c>', '</p:c>', '<!--c--c>-->'.replace('--c', '-c'), '<?pi d?>', '<![CDATA[<&]]>',
          '&amp;', '&lt;', '&#65;', '&ent;', ']', ']]', '>', 'é', '<a xmlns="u">', '<a xmlns:p="v">', '<q:d xmlns:q="w" q:z="1"/>',
          '<a x="1" y="2">', '<a xmlns="">', '"', '<b x="&amp;"/>']


def gen_tokens(n):
    ok = lambda s: read(s) is not None

    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(TOKENS, repeat=k):
                opens = sum(x.startswith('<a') or x == '<p:c>' for x in t)
                if opens != sum(x.startswith('</') for x in t):
                    continue
                yield DTD + '<r xmlns:p="u1">' + ''.join(t) + '</r>'
    return gen


PROLOG = ['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>',
          "<?xml version='1.0'?>\n"]
MISC = ['', '\n', '<!-- c -->', '<?pi?>', '<?pi a b?>\n', '<!-- -->\n<?x y?>']
DOCTYPE = ['', '<!DOCTYPE r>', '<!DOCTYPE r SYSTEM "r.dtd">\n', '<!DOCTYPE r PUBLIC "-//X//Y" "u">', '<!DOCTYPE r [\n<!ENTITY e "v">\n]>',
           '<!DOCTYPE r [<!ELEMENT r ANY><!ATTLIST r d CDATA "dflt">]>', '<!DOCTYPE r [<!-- c --><?p q?>]>', '<!DOCTYPE r SYSTEM "s" [<!NOTATION n SYSTEM "x">]>']
ROOT = ['<r/>', '<r></r>', '<r>x</r>', '<r d="1">\n</r>', '<r\n a="1"\n/>']


def gen_prolog():
    for p in PROLOG:
        for m1 in MISC:
            for d in DOCTYPE:
                for m2 in MISC:
                    for r in ROOT:
                        for m3 in MISC:
                            yield p + m1 + d + m2 + r + m3


NAMES = ['a', 'A', 'p:a', 'xml:lang', 'xmlns', 'xmlns:z', 'xmlns:p', 'é', 'a-b.c', 'q:a', 'xml:space']
VALS = ['', 'v', ' v  w ', 'a&amp;b', '&lt;', '&amp;lt;', '>', "'", '&quot;', '&#65;', '&#x3c;', 'é', '&#233;', '&ent;', 'u1', 'u2', 'a\nb', '&gt;', '&#34;', '&apos;', '&amp;#65;', '&amp;;']


def gen_attrs(n):
    one = ['%s="%s"' % (k, v) for k in NAMES for v in VALS] + ["%s='%s'" % (k, v.replace("'", '"')) for k in NAMES for v in VALS[5:9]]
    one[:0] = ['xmlns:xml="http://www.w3.org/XML/1998/namespace"', 'xml:lang="x"']

    def gen():
        for a in one:
            for body in ('/>', '>x</r>', ' />', '\n>x</r\n>', '><q:e xmlns:q="w"/></r>'):
                yield DTD + '<r xmlns:q="k" xmlns:p="u1" ' + a + body
                yield DTD + '<r ' + a + ' xmlns:p="u2" xmlns:q="u1"' + body
        for i, a in enumerate(one):
            for b in one[:n]:
                yield DTD + '<o xmlns:q="k" xmlns:p="u1"><r ' + a + ' ' + b + '><p:e p:f="1"/></r><p:e/></o>'
    return gen


# ---- attribute values character by character
VTOK = ['&amp;', '&lt;', '&#38;', '#', 'x', 'X', '1', 'A', 'g', ';', "'", '&quot;', '&#10;', '&#9;', '&#13;', '\n', ' ', 'é', '>']


def gen_values(n):
    def gen():
        for k in range(1, n + 1):
            for t in itertools.product(VTOK, repeat=k):
                yield '<r a="' + ''.join(t) + '"><b c="' + ''.join(t[::-1]) + '" d="1"/></r>'
    return gen


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('prolog', gen_prolog, judge, '5 XML declarations x 8 document types x 6 comments/PIs at 3 places x 5 roots'),
        Space('attributes', gen_attrs(10000 if deep else 122), judge, 'one or two attributes: 11 names x 22 values, the xml prefix declared'),
        Space('values', gen_values(5 if deep else 4), judge, 'every attribute value of <=%d of 19 tokens (references, characters of references, white space)' % (5 if deep else 4)),
        Space('content', gen_tokens(5 if deep else 4), judge, 'all well-formed sequences of <=%d of 26 tokens in the root' % (5 if deep else 4)),
    ]
