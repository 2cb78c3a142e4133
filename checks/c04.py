"""C04: values inserted as text or attributes can never change the markup."""
import html.parser
import xml.parsers.expat

from mc import ast, real
from mc.engine import Engine
from mc.real import Message

from .lib import *

ASSUMPTIONS = ['output is read back by the standard library HTML parser and by expat',
               'characters XML cannot represent are not in the space']
MARK = 'HARMLESS'
MARK2 = '2'      # where white space is collapsed the value is given without any


def template():
    def v(k='text'):
        return 'v' if k == 'text' else 'structure v'
    return [
        E('m', [('metal:define-macro', 'm'), ('tal:attributes', 'title v')], [
            E('s', [('metal:define-slot', 'a')], ['z']), E('q', [('tal:content', 'v')], ['z'])]),
        T('\n'),
        E('a', [('tal:content', 'v')], ['z']),
        E('a', [('tal:replace', 'v')], ['z']),
        E('b', [('tal:content', 'text v'), ('tal:omit-tag', '')], ['z']),
        E('c', [('tal:on-error', 'v'), ('tal:content', 'boom'), ('id', 'i')], ['z']),
        E('c', [('tal:on-error', 'text v'), ('tal:content', 'boom')], ['z']),
        T('\n'),
        E('d', [('title', 't'), ('class', 'k'), ('tal:attributes', 'title v; class v; alt v; zz fix')], ['z']),
        E('e', [('title', 't'), ('tal:attributes', 'href v')], [], '/'),
        E('f', [('tal:repeat', 'y two'), ('tal:attributes', 'title v:y')], [E('g', [('tal:content', 'v:y')])]),
        E('u', [('metal:use-macro', 'm')], [E('w', [('metal:fill-slot', 'a'), ('tal:attributes', 'title v')], [
            E('g', [('tal:replace', 'v')])])]),
        # translated values: the translation is the string
        E('h', [('tal:content', 'v'), ('i18n:translate', '')], ['z']),
        E('h', [('tal:replace', 'msg')], ['z']),
        E('h', [('tal:content', 'msg')], ['z']),
        E('h', [('title', 'x'), ('alt', 'y'), ('i18n:attributes', 'title;alt mid')], ['z']),
        E('h', [('tal:attributes', 'title v;alt msg'), ('i18n:attributes', 'title')], ['z']),
        E('i', [('tal:replace', 'structure st'), ('tal:attributes', 'title v')]),
        E('j', [('tal:define', 'x v; y v:x'), ('tal:content', 'v:y')]),
        E('k', [('i18n:translate', 'mid0')], [E('n', [('i18n:name', 'nm'), ('tal:content', 'nv')])]),
        T('end'),
    ]


_prog = {}


def prog(xml):
    if xml not in _prog:
        nodes = [E('root', ast.XMLNS if xml else (), template())]
        _prog[xml] = real.compile_source(ast.to_source(nodes), xml, 'page')
    return _prog[xml]


def render(xml, value, **opt):
    p, m = prog(xml)

    def tr(msgid, domain, mapping, default):
        if msgid == 'mid0':
            return mapping['nm']
        return value
    eng = Engine({'v': value, 'boom': Raise(), 'fix': 'fix', 'two': ['one', value], 'nv': value + MARK2 if value == MARK else ''.join(value.split()), 'msg': Message('mm', 'd'),
                  'st': '<i class="x">st</i><i>more</i>'}, {'m': m['m']}, translate=tr)
    return real.render(p, m, eng, **opt), eng


class HP(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(('s', tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(('e', tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.ev.append(('/', tag))

    def handle_data(self, d):
        if self.ev and self.ev[-1][0] == 't':
            self.ev[-1] = ('t', self.ev[-1][1] + d)
        else:
            self.ev.append(('t', d))

    def handle_comment(self, d):
        self.ev.append(('c', d))

    def handle_decl(self, d):
        self.ev.append(('d', d))

    def unknown_decl(self, d):
        self.ev.append(('ud', d))

    def handle_pi(self, d):
        self.ev.append(('pi', d))


def read_html(s):
    p = HP()
    p.feed(s)
    p.close()
    return p.ev


def read_xml(s):
    ev = []
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = 1
    p.buffer_text = 1
    p.StartElementHandler = lambda n, a: ev.append(('s', n, tuple(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: ev.append(('/', n))

    def text(d):
        if ev and ev[-1][0] == 't':
            ev[-1] = ('t', ev[-1][1] + d)
        else:
            ev.append(('t', d))
    p.CharacterDataHandler = text
    p.CommentHandler = lambda d: ev.append(('c', d))
    p.ProcessingInstructionHandler = lambda t, d: ev.append(('pi', t, d))
    p.StartCdataSectionHandler = lambda: ev.append(('cd',))
    p.Parse(s, True)
    return ev


_skel = {}


def skeleton(xml, opt):
    k = (xml, tuple(opt.items()))
    if k not in _skel:
        out, eng = render(xml, MARK, **opt)
        ev = (read_xml if xml else read_html)(out)
        assert out.count(MARK) > 15
        _skel[k] = ev
    return _skel[k]


def expected(xml, value, opt):
    tv = av = value
    res = []
    for e in skeleton(xml, opt):
        if e[0] == 't':
            s = e[1].replace(MARK + MARK2, ''.join(value.split())).replace(MARK, tv)
            if s:
                res.append(('t', s))
        elif e[0] in 'se':
            res.append((e[0], e[1], tuple((k, w if w is None else w.replace(MARK, av)) for k, w in e[2])))
        else:
            res.append(e)
    out = []
    for e in res:
        if e[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + e[1])
        else:
            out.append(e)
    return out


def judge(value, rec):
    for xml in (False, True):
        for opt in ({}, {'wrap': 30}):
            exp = expected(xml, value, opt)
            try:
                out, eng = render(xml, value, **opt)
            except Exception as e:
                return {'problem': 'rendering failed: %r' % e, 'value': repr(value), 'xml': xml}
            rec.execution(exp)
            try:
                got = (read_xml if xml else read_html)(out)
            except Exception as e:
                return {'problem': 'output is not well-formed: %s' % e, 'value': repr(value), 'output': out}
            if got != exp:
                i = 0
                while i < min(len(got), len(exp)) and got[i] == exp[i]:
                    i += 1
                return {'problem': 'markup changed or value not preserved', 'value': repr(value), 'xml': xml,
                        'expected': exp[i:i + 1], 'actual': got[i:i + 1], 'output': out}


CHARS = '&<>"\'a;#x/! \n]-é='
TOKENS = ['&', '&amp;', '&lt;', '&#60;', '&#x3c;', '<', '>', '"', "'", '-->', ']]>', '</a>', '<b>', 'a', ';', '&quot;',
          '&nbsp', '\U0001f600', '<!--', '<![CDATA[', '${v}', '%s', '\\1', ' x="', '\t', '\r', '/>', '&am', 'p;', '\xa0', '&#39;', '<?']


def gen_chars(n):
    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(CHARS, repeat=k):
                yield ''.join(t)
    return gen


def gen_tokens(n):
    def gen():
        for k in range(1, n + 1):
            for t in itertools.product(TOKENS, repeat=k):
                yield ''.join(t)
    return gen


def gen_codepoints(top):
  def gen():
    for c in range(0x20, top):
        if c not in range(0x7f, 0xa0):
            yield chr(c)
    for c in (0xfffd, 0x10000, 0x10ffff, 9, 10, 13):
        yield chr(c)
  return gen


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('tokens', gen_tokens(3), judge, 'all sequences of <=3 of 32 markup tokens at 27 insertion points'),
        Space('characters', gen_chars(4 if deep else 3), judge, 'all strings of <=%d of 17 characters at 27 insertion points' % (4 if deep else 3)),
        Space('code-points', gen_codepoints(0x3000 if deep else 0x500), judge, 'every single code point up to U+%s and extremes' % ('2FFF' if deep else '04FF')),
    ]
