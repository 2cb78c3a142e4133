"""C01: HTML without directives is rendered back with nothing lost or altered."""
import html.parser
import re

from mc import htmlmodel as hm
from mc import real
from mc.engine import Engine

from .lib import *

ASSUMPTIONS = ['input and output are read with the standard library tokenizer; what that tokenizer itself '
               'discards (an unfinished tag at the end of the text) is not claimed',
               'a document that ends in an unterminated reference gets its semicolon only when read again']


class Reader(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=False)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(('s', tag, tuple(attrs), False))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(('s', tag, tuple(attrs), True))

    def handle_endtag(self, tag):
        self.ev.append(('e', tag))

    def other(self, *t):
        self.ev.append(('t', '\x01'.join(t) + '\x02' if len(t) > 1 else t[0]))

    def handle_data(self, d):
        self.other(d)

    def handle_entityref(self, n):
        self.other('&%s;' % n)

    def handle_charref(self, n):
        self.other('&#%s;' % n)

    def handle_comment(self, d):
        self.other('comment', d)

    def handle_decl(self, d):
        self.other('decl', d)

    def handle_pi(self, d):
        self.other('pi', d)

    def unknown_decl(self, d):
        self.other('section', d)


def read(s):
    p = Reader()
    p.feed(s)
    p.close()
    ev = p.ev
    if ev and ev[-1][0] == 't':
        # an unterminated reference at the very end is reported as text
        i = len(ev)
        while i and ev[i - 1][0] == 't':
            i -= 1
        ev[i:] = [('t', re.sub(r'(&#?[a-zA-Z0-9]+)\Z', r'\1;', ''.join(t[1] for t in ev[i:])))]
    return ev


def run(src):
    p = real.make_parser(False, 'page')
    p.parseString(src)
    prog, macros = p.getCode()
    return real.render(prog, macros, Engine({}))


def judge(src, rec):
    if '</>' in src or re.search('&#(?![0-9xX])', src):
        return          # not markup and not text; the tokenizer is inconsistent
    toks = read(src)
    if any(':' in t[1] or any(':' in k for k, _ in t[2]) for t in toks if t[0] == 's'):
        return          # prefixed names: C20
    try:
        exp = hm.nest(toks)
    except hm.Misnested:
        return          # C02
    rec.execution(exp)
    try:
        out = run(src)
    except Exception as e:
        return {'problem': 'document rejected: %s: %s' % (type(e).__name__, e), 'source': src}
    got = read(out)
    merged = []
    for t in got:
        if t[0] == 't' and merged and merged[-1][0] == 't':
            merged[-1] = ('t', merged[-1][1] + t[1])
        else:
            merged.append(t)
    bad = len(merged) != len(exp)
    for e, g in zip(exp, merged):
        if e[0] != g[0]:
            bad = True
        elif e[0] == 's':
            bad = bad or e[1] != g[1] or e[2] != g[2] or (e[3] == '/') != g[3]
        elif e[0] == 'e':
            bad = bad or e[1] != g[1]
        else:
            bad = bad or e[1] != g[1]
    if bad:
        return {'problem': 'document changed', 'source': src, 'output': out, 'expected tokens': exp, 'output tokens': merged}
    if re.search(r'&#?[a-zA-Z0-9]*\s*\Z', src):
        return          # reference left unfinished by the end of the text
    rec.traces += 1
    again = run(out)
    if again != out:
        return {'problem': 'output is not a fixed point', 'source': src, 'first': out, 'second': again}


def strings(alphabet, n):
    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(alphabet, repeat=k):
                yield ''.join(t) + END
    return gen


# the tokenizer treats the very end of the text specially
END = '<hr>.'
CHARS = '<>/!-?&;#="\' ab\n'
TOKENS = ['x', ' ', '\n', '<p>', '</p>', '<b>', '</b>', '<br>', '<br/>', '<B Class=c>', '</B>', '<!--c-->', '<!DOCTYPE html>',
          '<?pi x?>', '&amp;', '&lt;', '&nbsp', '&#65;', '&#x41', '&', '<', '>', 'é', '\t', '<![if x]>', '<![CDATA[a]]>', '<!-->',
          '<!x>', '<script>a<b && c</script>', '<style>a > b</style>', '</x>', '<i checked>', '\r\n', '&unknown;', '"',
          '<textarea><b>&amp;</textarea>', '<title>&lt;a</title>', '<pre>\n x\n</pre>']
NAMES = ['a', 'TITLE', 'checked', 'data-x', 'é']
VALS = [None, '', 'v', 'a b', 'a&b', 'a&amp;b', 'a&lt;b', '&amp;lt;', '<', '>', "it's", 'q"q', '&quot;', '&#65;', '&#39;', 'é', '&nbsp;', 'a\nb',
        '&', '&x', '&x;', '&#;', 'a;b', '&amp;amp;', "'", '`', '=', '\t']
QUOTES = ['"', "'", '']
SEPS = [' ', '\n', '  ']


def gen_attrs(n):
    def tags():
        one = []
        for name in NAMES:
            for v in VALS:
                for q in QUOTES:
                    if v is None:
                        if q == '"':
                            one.append(name)
                    elif q == '' and (v == '' or any(c in v for c in ' \n\t"\'<>=`&')):
                        continue
                    elif q and q in v:
                        continue
                    else:
                        one.append('%s=%s%s%s' % (name, q, v, q))
        return one
    one = tags()

    def gen():
        for a in one:
            for tail in ('>', '/>', ' >', ' />', '>t</x>'):
                yield '<x ' + a + tail
        for a in one:
            for b in one:
                for sep in SEPS[:n]:
                    yield '<x%s%s%s%s>t</x>' % (sep, a, sep, b)
    return gen


# ---- references character by character, as text and as attribute value
RCHARS = '&#x0A;1gl t'


def gen_refs(n):
    def gen():
        for k in range(1, n + 1):
            for t in itertools.product(RCHARS, repeat=k):
                if '&' in t:
                    s = ''.join(t)
                    yield 'a' + s + ' <i b="%s" c=\'%s\'>.' % (s, s.replace('&', '&amp;')) + END
    return gen


NAMED = ['lt', 'gt', 'amp', 'quot', 'apos', 'nbsp', 'copy', 'eacute', 'frac12', 'sup2', 'not', 'notin', 'Eacute', 'AMP', 'there4', 'nosuch', 'x1', 'lang',
         '#60', '#062', '#x3C', '#X3c', '#0', '#x0', '#00065', '#1114112', '#x110000', '#128', '#160', '#xD800', '#13', '#9']


def gen_named():
    for a in NAMED:
        for e1 in (';', '', ' ', '=', ';;'):
            for b in NAMED:
                for e2 in (';', '', '&'):
                    for amp in ('&', '&amp;'):
                        s = amp + a + e1 + '&' + b + e2
                        yield 't' + s + ' <i b="%s">.' % s + END


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('references', gen_refs(6 if deep else 5), judge, 'every string of <=%d of %r with an ampersand, as text and as attribute value' % (6 if deep else 5, RCHARS)),
        Space('named-references', gen_named, judge, 'every pair of 32 named and numeric references x 5x3 endings x escaped or not, as text and as attribute value'),
        Space('attributes', gen_attrs(3 if deep else 1), judge, 'one or two attributes: 5 names x 28 values x 3 quotings x separators'),
        Space('tokens', strings(TOKENS, 4 if deep else 3), judge, 'all sequences of <=%d of 38 markup tokens' % (4 if deep else 3)),
        Space('characters', strings(CHARS, 6 if deep else 5), judge, 'every string of <=%d characters of %r' % (6 if deep else 5, CHARS)),
    ]
