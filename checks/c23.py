"""C23: how a template is delivered to the compiler never changes the result."""
import io
import os
import tempfile
from html.parser import HTMLParser

from mc import ast, real
from mc.ast import XMLNS
from mc.engine import Engine

from . import terms
from .lib import *
from .libs import LIBS, kinds, libnodes
from .terms import Auto

ASSUMPTIONS = ['the message and position of ill-formed XML are the XML parser\'s own and not compared',
               'cuts that change the events of the standard library\'s HTML parser are not counted (a "-" after an unterminated reference, the comment "<!-->")',
               'HTML files are in the encoding of the locale (UTF-8 here) and have no carriage returns (files are read with universal newlines)',
               'HTML pieces are fed before the final piece is parsed']


def outcome(feed, xml, name='name.pt', macros=None, encoding=None):
    """Everything observable about compiling and rendering."""
    p = real.make_parser(xml, name, encoding=encoding)
    try:
        feed(p)
        code = p.getCode()
    except Exception as e:
        return (type(e).__name__, getattr(e, 'msg', None) or str(e), getattr(e, 'lineno', None), getattr(e, 'offset', None)), [], getattr(e, 'filename', None), str(e)
    eng = Engine(Auto(), macros or code[1], where=True)
    o = diff.run(lambda: real.render(*code, eng), eng)
    return (o.error, o.text, tuple(sorted(code[1]))), o.trace, None


def html_pieces(parts):
    def feed(p):
        for x in parts[:-1]:
            p.feed(x)
        p.parseString(parts[-1])
    return feed


def xml_pieces(parts):
    def feed(p):
        for x in parts[:-1]:
            p.parseFragment(x)
        p.parseFragment(parts[-1], 1)
    return feed


def xml_lazy(parts):
    """An empty last piece."""
    def feed(p):
        for x in parts:
            p.parseFragment(x)
        p.parseFragment('' if isinstance(parts[0], str) else b'', 1)
    return feed


class Trickle(io.RawIOBase):
    """A stream that returns at most n bytes at a time."""

    def __init__(self, data, n):
        self.data, self.n = data, n

    def read(self, size=-1):
        k = self.n if size < 0 else min(self.n, size)
        r, self.data = self.data[:k], self.data[k:]
        return r


class Events(HTMLParser):
    """What the standard library makes of the source."""

    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=False)
        self.log = []

    def add(self, *a):
        if a[0] == 'data' and self.log and self.log[-1][0] == 'data':
            a = ('data', self.log.pop()[1] + a[1])
        elif a[0] != 'data':
            a += (self.getpos(),)
        self.log.append(a)

    def handle_starttag(self, tag, attrs):
        self.add('start', tag, attrs, self.get_starttag_text())

    def handle_startendtag(self, tag, attrs):
        self.add('empty', tag, attrs, self.get_starttag_text())

    def handle_endtag(self, tag):
        self.add('end', tag)

    def handle_data(self, data):
        self.add('data', data)

    def handle_entityref(self, n):
        self.add('ref', n)

    def handle_charref(self, n):
        self.add('cref', n)

    def handle_comment(self, s):
        self.add('comment', s)

    def handle_decl(self, s):
        self.add('decl', s)

    def handle_pi(self, s):
        self.add('pi', s)

    def unknown_decl(self, s):
        self.add('udecl', s)


def events(parts):
    p = Events()
    try:
        for x in parts:
            p.feed(x)
        p.close()
    except Exception as e:
        p.log.append(repr(e))
    return p.log


FILES = {}


def scratch():
    if os.getpid() not in FILES:
        FILES[os.getpid()] = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    return FILES[os.getpid()]


def on_disk(data):
    fn = os.path.join(scratch(), 'file.pt')
    with open(fn, 'wb') as f:
        f.write(data)
    return fn


def differs(src, xml, what, a, b):
    if a[0][0] == b[0][0] == 'ExpatError':
        return                         # the XML parser's own message depends on the cut
    if a[:2] != b[:2]:
        return {'problem': 'result depends on delivery: %s' % what, 'source': src, 'xml': xml, 'expected': a[0], 'actual': b[0],
                'expected calls': a[1], 'actual calls': b[1]}


def routes(src, xml, rec, enc='utf-8', macros=None):
    a = outcome(lambda p: p.parseString(src), xml, macros=macros)
    rec.execution(a[1], final=a[0])
    data = src.encode(enc)
    fn = on_disk(data)
    ways = [('file', lambda p: p.parseFile(fn))]
    if xml:
        ways += [('bytes', lambda p: p.parseString(data)),
                 ('stream', lambda p: p.parseStream(io.BytesIO(data))),
                 ('open file', lambda p: parse_open(p, fn)),
                 ('file: URL', lambda p: p.parseURL('file://' + fn))]
        ways += [('stream giving %d bytes at a time' % n, lambda p, n=n: p.parseStream(Trickle(data, n))) for n in (1, 2, 7)]
        ways += [('characters', xml_pieces(list(src) or [''])), ('single bytes', xml_pieces([data[i:i + 1] for i in range(len(data))] or [b'']))]
    else:
        ways += [('characters', html_pieces(list(src) or ['']))]
    for what, feed in ways:
        b = outcome(feed, xml, macros=macros)
        rec.execution([what], final=b[0])
        d = differs(src, xml, what, a, b)
        if d and (xml or what == 'file' or events(list(src)) == events([src])):
            return d
        if what == 'file' and not xml and b[0][0] in ('TALError', 'METALError', 'I18NError') \
                and (b[2] != fn or fn not in b[3]):
            return {'problem': 'file name missing from the error', 'source': src, 'actual': b}


def parse_open(p, fn):
    with open(fn, 'rb') as f:
        p.parseStream(f)


def splits(src, xml, rec, cuts, macros=None):
    a = outcome(lambda p: p.parseString(src), xml, macros=macros)
    rec.execution(a[1], final=a[0])
    data = src.encode('utf-8')
    for k in range(1, cuts + 1):
        for c in itertools.combinations(range(0, len(src) + 1), k):
            parts = [src[i:j] for i, j in zip((0,) + c, c + (len(src),))]
            b = outcome((xml_pieces if xml else html_pieces)(parts), xml, macros=macros)
            rec.execution(c)
            d = differs(src, xml, 'pieces %r' % (parts,), a, b)
            if d and (xml or events(parts) == events([src])):
                return d
        if xml:
            for c in itertools.combinations(range(0, len(data) + 1), k):
                parts = [data[i:j] for i, j in zip((0,) + c, c + (len(data),))]
                b = outcome(xml_lazy(parts), xml, macros=macros)
                rec.execution(c)
                d = differs(src, xml, 'pieces %r' % (parts,), a, b)
                if d:
                    return d


# ---- hand picked documents of every construct
HTML = ['<p>a &amp; b &lt;c</p>', 'a & b <p>&copy x</p>', '<p a="1" b=\'2\' c=3 d>t</p>', '<!-- c --><!DOCTYPE html><?pi x?><br/><hr>x',
        '<script>if (a<b && "</p>") x</script>t', '<style>a > b {}</style>', '<p tal:content="x">y</p>\n<b tal:replace="structure s">z</b>', '<b>x</b', 'a < b',
        '<p>x<br>y', '<![CDATA[x]]>', 'é<p title="é€">\U0001f600</p>', '&#65;&#x41;&#65', 'a<', '&', '<p>&am', '<textarea><b></textarea>', '</p>', '<p><b></p>',
        '\n<p tal:bogus="x">', '<p\n\n  tal:content=""\n>x</p>', '<!-- a', '<!a', '<script>a', '<script>a</scr</script>b', '<![if x]>y<![endif]>',
        '<p i18n:translate="">some <b i18n:name="n">x</b> text &amp; more</p>', '<i metal:define-macro="m">\n<u metal:define-slot="s" tal:on-error="h"/></i>',
        '<script type="text/server-python">x < y</script>', '<p tal:attributes="a x; b y" a="&quot;" c=\'"\'>x</p>', '<tr><td>a<td>b<tr><td>c', '<b>\n</i>',
        '<tal:x define="q x" repeat="y r">\n <i tal:content="v:y" />\n</tal:x>', '<input checked tal:attributes="checked x">', '<p tal:content="x" tal:content="y">',
        '<a tal:content="structure s" tal:attributes="a b" />', '<p>a\r\nb</p>']
NS = ' '.join('%s="%s"' % a for a in XMLNS[:1])
XML = ['<r>a &amp; b &lt;c</r>', '<r>&copy;</r>', '<r a="1" b=\'2\'>t</r>', '<?xml version="1.0"?>\n<!-- c --><!DOCTYPE r><?pi x?><r/>', '<r><![CDATA[a<b&]]>]</r>',
       '<r %s tal:content="x"/>' % NS, '<r>x</q>', '<r>é<e t="é€">\U0001f600</e></r>', '<r>&#65;&#x20ac;</r>', '<r', '', '<r/>x', '\n<r %s tal:bogus="x"/>' % NS,
       '<r %s>\n<e\n tal:content=""/></r>' % NS, '<?xml version="1.0" encoding="utf-8"?><r>é</r>', '<r>a]]b</r>', '<r>a\r\nb</r>', '<!DOCTYPE r [<!ENTITY e "v">]><r>&e;</r>',
       '<r %s><tal:x define="q x" repeat="y r">\n <i tal:content="y"/>\n</tal:x></r>' % NS, '<p:r xmlns:p="u"><p:e p:a="1"/></p:r>',
       '<r %s><e tal:on-error="h" tal:content="structure s"/></r>' % NS, '<r a="x&#10;y"/>']


def gen_docs():
    return [(x, s) for x, ss in ((False, HTML), (True, XML)) for s in ss]


def judge_docs(cuts):
    def judge(case, rec):
        xml, src = case
        d = None
        if '\r' not in src or xml:
            d = routes(src, xml, rec)
        return d or splits(src, xml, rec, cuts if len(src) < 60 else min(cuts, 2))
    return judge


# ---- token strings
TOK = {False: ['<', '>', '&', ';', 'a', '</', ' ', '=', '"', '<!--', '-->', '<b', '\n'],
       True: ['<r', '>', '&', 'amp;', 'x', '</r>', ' ', 'a="', '"', '<!--', '-->', '\n', '<?p ', '?>', '<![CDATA[', ']]>']}


def gen_tokens(n, m):
    def gen():
        for xml, k in ((False, n), (True, m)):
            for t in itertools.product(TOK[xml], repeat=k):
                s = ''.join(t)
                yield xml, ('<r>' + s + '</r>' if xml else s)
    return gen


def judge_tokens(case, rec):
    return splits(case[1], case[0], rec, 1)


# ---- white space that is moved or taken into a loop
AROUND = {False: ['<ul><li>a%s<li>b</ul>', '<p>a%s<div>b</div>', '<table><tr><td>a%s<tr><td>b</table>', 'a%s<b tal:repeat="y r">x</b>', '<p>%s', '<dl><dt>a%s</dl>',
                  '<p i18n:translate="">a%s<b i18n:name="n">c</b></p>', '<pre i18n:translate="">a%s</pre>', '<p>a%s<br tal:repeat="y r">'],
          True: ['<r ' + NS + '>a%s<b tal:repeat="y r">x</b></r>', '<r ' + NS + '><b tal:repeat="y r">%s<i tal:repeat="z r"/></b></r>', '<r>%s</r>']}
WHITE = [' ', '\n', '\t', 'x', '&lt;', '<!---->']


def gen_white(n):
    def gen():
        for xml in (False, True):
            for a in AROUND[xml]:
                for k in range(1, n + 1):
                    for t in itertools.product(WHITE, repeat=k):
                        yield xml, a, t
    return gen


def judge_white(case, rec):
    xml, around, toks = case
    pre, post = around.split('%s')
    src = around % ''.join(toks)
    a = outcome(lambda p: p.parseString(src), xml)
    rec.execution(a[1], final=a[0])
    for k in range(0, len(toks) + 2):
        for c in itertools.combinations(range(len(toks) + 1), k):
            # cut between these tokens
            ends = [len(pre) + len(''.join(toks[:i])) for i in c]
            parts = [src[i:j] for i, j in zip([0] + ends, ends + [len(src)])]
            b = outcome((xml_pieces if xml else html_pieces)(parts), xml)
            rec.execution(c)
            d = differs(src, xml, 'pieces %r' % (parts,), a, b)
            if d and (xml or events(parts) == events([src])):
                return d


# ---- encodings
ENCS = ['utf-8', 'iso-8859-1', 'us-ascii', 'utf-16', None]
TEXT = ['plain', 'caf\xe9', '\xe9€', '\U0001f600']


def gen_enc():
    for e in ENCS:
        for t in TEXT:
            for where in range(4):
                for bom in (0, 1):
                    yield e, t, where, bom


def judge_enc(case, rec):
    enc, t, where, bom = case
    head = '<?xml version="1.0"%s?>' % (' encoding="%s"' % enc if enc else '')
    body = ['<r>%s</r>', '<r a="%s"/>', '<r><!-- %s --></r>', '<r ' + NS + '><e tal:content="x">y</e>%s</r>'][where] % t
    src = head + '\n' + body    # a byte order mark counts as a column
    try:
        src.encode(enc or 'utf-8')
    except UnicodeEncodeError:
        # such a document exists as text only
        a = outcome(lambda p: p.parseString(src), True)
        pad = ' ' * (len(enc) - 5)
        b = outcome(lambda p: p.parseString(src.replace('encoding="%s"' % enc, 'encoding="utf-8"' + pad)), True)
        rec.execution(a[1], final=a[0])
        if a[0][1] is not None:
            a = ((a[0][0], a[0][1].replace('encoding="%s"' % enc, 'encoding="utf-8"' + pad)) + a[0][2:],) + a[1:]
        return differs(src, True, 'declared encoding of text', b, a)
    if bom:
        if enc not in ('utf-8', None):
            return
        a = outcome(lambda p: p.parseString(src), True)
        b = outcome(lambda p: p.parseString(src.encode('utf-8-sig')), True)
        c = outcome(lambda p: p.parseFile(on_disk(src.encode('utf-8-sig'))), True)
        rec.execution(a[1], final=a[0])
        # where columns are counted from differs by the mark: compare output only
        if a[0] != b[0] or a[0] != c[0]:
            return {'problem': 'byte order mark changes the result', 'source': src, 'expected': a, 'actual': b}
        return
    return routes(src, True, rec, enc or 'utf-8')


# ---- encodings the application gives
GIVEN = ['utf-8', 'iso-8859-1', 'us-ascii', 'utf-16', 'cp1252', 'koi8-r']
WORDS = ['plain', 'caf\xe9', 'a\xe9\xe9b', '\u20ac', '\u0430\u0431', '\U0001f600']


def gen_given():
    for e in GIVEN:
        for t in WORDS:
            for where in range(4):
                for decl in ('', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="%s"?>'):
                    for said in [None] if '%' not in decl else [e, 'utf-8', 'us-ascii', 'iso-8859-5']:
                        yield e, t, where, decl, said


def judge_given(case, rec):
    enc, t, where, decl, said = case
    head = decl % said if said else decl
    body = ['<r>%s</r>', '<r a="%s"/>', '<r><!-- %s --></r>', '<r ' + NS + '><e tal:content="x">y</e>%s</r>'][where] % t
    src = head + '\n' + body    # a byte order mark counts as a column
    try:
        data = src.encode(enc)
    except UnicodeEncodeError:
        return
    a = outcome(lambda p: p.parseString(src), True)
    rec.execution(a[1], final=a[0])
    fn = on_disk(data)
    for what, feed in [('bytes', lambda p: p.parseString(data)), ('stream', lambda p: p.parseStream(io.BytesIO(data))), ('file', lambda p: p.parseFile(fn)),
                       ('single bytes', xml_pieces([data[i:i + 1] for i in range(len(data))]))]:
        b = outcome(feed, True, encoding=enc)
        rec.execution([what], final=b[0])
        d = differs(src, True, '%s in the encoding %s given to the parser' % (what, enc), a, b)
        if d:
            return d


# ---- templates
ALPHA = ('use', 'fill', 'txt', 'stx', 'att', 'loop', 'defl', 'err', 'tal', 'unit', 'name', 'dom', 'iat')
BASE = {}


def gen_terms(n):
    def gen():
        for k in range(1, n + 1):
            for f in terms.forests(k, ALPHA, 2, False, False):
                for lib in ('slot', 'ext') if kinds(f) & {'use'} else ('slot',):
                    for xml in (False, True):
                        yield lib, f, xml
    return gen


def judge_terms(case, rec):
    lib, f, xml = case
    if (lib, xml) not in BASE:
        BASE[lib, xml] = diff.Scenario(libnodes(lib), xml)
    nodes = terms.page(f)
    src = ast.to_source(ast.xml_doc(nodes) if xml else nodes)
    im = BASE[lib, xml].im
    return routes(src, xml, rec, macros=im) or splits(src, xml, rec, 1, macros=im)


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    return [
        Space('documents', gen_docs, judge_docs(2 + d), '%d HTML and %d XML documents, every route, every set of <=%d cuts (2 in long ones)' % (len(HTML), len(XML), 2 + d)),
        Space('white-space', gen_white(4 + d), judge_white, 'up to %d of 6 characters at 12 places, every set of cuts between them' % (4 + d)),
        Space('encodings', gen_enc, judge_enc, '5 declarations x 4 texts x 4 places x byte order mark'),
        Space('given-encodings', gen_given, judge_given, '%d encodings given to the parser x %d texts x 4 places x 6 declarations x 4 routes' % (len(GIVEN), len(WORDS))),
        Space('tokens', gen_tokens(4 + d, 3 + d), judge_tokens, 'all documents of %d/%d tokens, every cut' % (4 + d, 3 + d)),
        Space('terms', gen_terms(2 + d), judge_terms, 'all pages of <=%d constructors, every route, every cut' % (2 + d)),
    ]
