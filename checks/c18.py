"""C18: wrapping and source annotations only affect presentation."""
import re
import sys

from mc import real
from mc.engine import Engine

from . import dress, terms
from .lib import *
from .lib import rejected
from .libs import LIBS, kinds, libnodes
from .terms import Auto

ASSUMPTIONS = ['column claims only for tags outside translation units, and not for an attribute that has a line break in its value (but for those after it)',
               'tags whose name starts with "d" have computed attributes in the generated templates']
TAG = re.compile(r'''<([A-Za-z][\w:.-]*)((?:\s+[^\s=>/"']+(?:="[^"]*"|='[^']*')?)+)(\s*/?>)''')
ATT = re.compile(r'''\s+([^\s=>/"']+(?:="[^"]*"|='[^']*')?)''')
SEP = '=' * 78
NOTE = re.compile(r'<!--\n%s\n(\S*?)(?: \(line (\d+)\))?\n%s\n-->' % (SEP, SEP))
BREAK = re.compile(r'\n *')


def check_wrap(plain, wrapped, width, columns=True):
    """None, or how `wrapped` is not a wrapping of `plain`."""
    i = 0
    pos = 0
    for m in TAG.finditer(plain):
        seg = plain[pos:m.start()] + '<' + m.group(1)
        if not wrapped.startswith(seg, i):
            return 'text before <%s differs' % m.group(1)
        i += len(seg)
        pos = m.end()
        nl = False
        first = i - (wrapped.rfind('\n', 0, i) + 1) + 1
        for n, a in enumerate(ATT.finditer(m.group(2))):
            tok = a.group(1)
            col = i - (wrapped.rfind('\n', 0, i) + 1)
            passes = width and col + 1 + len(tok) > width
            if wrapped.startswith(' ' + tok, i):
                if columns and passes and n and m.group(1)[0] == 'd' and '\n' not in tok and (col >= first or not nl):
                    return 'attribute %s passes the width' % tok
                i += 1 + len(tok)
                nl = nl or '\n' in tok
                continue
            b = BREAK.match(wrapped, i)
            if b is None or not wrapped.startswith(tok, b.end()):
                return 'attribute %s missing or changed' % tok
            if not width or columns and not passes and '\n' not in tok:
                return 'needless break before %s' % tok
            if columns and len(b.group()) - 1 > col:
                return 'break before %s moves it to the right' % tok
            i = b.end() + len(tok)
            nl = nl or '\n' in tok
        if not wrapped.startswith(m.group(3), i):
            return 'end of tag <%s changed' % m.group(1)
        i += len(m.group(3))
    if wrapped[i:] != plain[pos:]:
        return 'end of document differs'


def squeeze(x):
    """Calls with all white space alike."""
    return re.sub(r'(\\n|\s)+', ' ', repr(x))


def sweep(sc, env, widths, rec, columns=True, **kw):
    plain = sc.expect(env, **kw)
    rec.execution(plain.trace, final=plain.error or plain.text)
    for w in widths:
        act = sc.actual(env, wrap=w, **kw)
        rec.execution([w])
        if plain.error or act.error:
            d = None if plain.error == act.error else 'failure differs'
        else:
            d = check_wrap(plain.text, act.text, w, columns)
        if d is None and squeeze(act.trace) != squeeze(plain.trace):
            d = 'engine calls differ'
        if d:
            return {'problem': 'width %s: %s' % (w, d), 'source': dict(sc.src), 'data': repr(env),
                    'unwrapped': plain.error or plain.text, 'wrapped': act.error or act.text}


# ---- one tag
PRE = ['', 'abc', 'a line\nab', 'x' * 17]
ATTS = [('a', 'st', None), ('bb', 's' * 9, None), ('k', None, 'V'), ('klong', None, 'w' * 12), ('a', 'st', 'n'), ('gone', 'x', 'NONE'), ('title', None, 'x y'),
        ('id', 'q', 'DEF'), ('nl', None, 'xy\n' + 'z' * 11), ('esc', None, '<<"&&')]


def gen_tags(n):
    def gen():
        for k in range(1, n + 1):
            for t in itertools.permutations(range(len(ATTS)), k):
                names = [ATTS[j][0] for j in t]
                if len(set(names)) == k and any(ATTS[j][2] for j in t):
                    yield t
    return gen


def judge_tags(t, rec):
    atts, dyn, env = [], [], {}
    for j in t:
        n, static, val = ATTS[j]
        if static is not None:
            atts.append((n, static))
        if val is not None:
            dyn.append('%s v%d' % (n, j))
            env['v%d' % j] = {'NONE': None, 'DEF': DEFAULT}.get(val, val)
    if dyn:
        atts.append(('tal:attributes', '; '.join(dyn)))
    for xml in (False, True):
        for pre in PRE:
            for name in ('d', 'dlonger'):
                for form in ('', '/'):
                    try:
                        sc = scenario([E('s', (), [T(pre), E(name, atts, [T('z')] if not form else [], form), T('end')])], xml)
                    except diff.Rejected as e:
                        return rejected(e)
                    d = sweep(sc, env, range(0, 60, 1), rec)
                    if d:
                        return d


# ---- what precedes the tag
D = [('a', 'st'), ('tal:attributes', 'k k; l l; m m')]
LIB = [('lib', [E('m', [('metal:define-macro', 'm1')], [T('in'), E('dm', D, [E('i', [('metal:define-slot', 'a')], ['slot'])]), T('ac')])])]
CTX = {
    'text': lambda i: T('some text'),
    'lines': lambda i: T('two\nlines'),
    'cont': lambda i: E('e', [('tal:content', 't')], ['x']),
    'contnl': lambda i: E('e', [('tal:content', 'n')], ['x']),
    'contnl1': lambda i: E('e', [('tal:replace', 'n1')], ['x']),
    'contnl2': lambda i: E('e', [('tal:replace', 'n2')], ['x']),
    'oknl': lambda i: E('tal:x', [('on-error', 'h')], ['\nfive5']),
    'snl': lambda i: E('tal:x', [('content', 'structure n1')], ['x']),
    'nl1': lambda i: T('\nfour'),
    'struct': lambda i: E('e', [('tal:content', 'structure s')], ['x']),
    'repl': lambda i: E('e', [('tal:replace', 'structure sn')], ['x']),
    'dyn': lambda i: E('dd', D, ['in']),
    'loop': lambda i: E('dl', D + [('tal:repeat', 'x r')], ['l']),
    'omit': lambda i: E('do', D + [('tal:omit-tag', 'o')], ['o']),
    'ok': lambda i: E('e', [('tal:on-error', 'h')], ['y', E('dk', D, ['k'])]),
    'fail': lambda i: E('e', [('tal:on-error', 'h')], ['yyyyy', E('dk', D, ['k']), E('z', [('tal:content', 'boom')])]),
    'use': lambda i: E('e', [('metal:use-macro', 'm1')], [E('df', D + [('metal:fill-slot', 'a')], ['f'])]),
    'tal': lambda i: E('tal:x', [('define', 'q t')], ['blk', E('dt', D, [])]),
    'kept': lambda i: E('de', [('tal:omit-tag', 'f'), ('tal:attributes', 'k k')], ['e']),
    'keptlong': lambda i: E('dlongname', D + [('tal:omit-tag', 'f')], []),
    'rloop': lambda i: E('e', [('tal:repeat', 'x r')], ['\n  ', E('dr', D, ['l']), 'tail']),
    'void': lambda i: E('e', (), [E('dv', D, (), '/'), 'v']),
    'defl': lambda i: E('e', [('tal:content', 'df')], ['de', E('dg', D, ['g']), 'fa']),
    'cond': lambda i: E('e', [('tal:condition', 'f')], [E('dn', D, ['never']), '\n']),
    'com': lambda i: T('<!-- a\n comment -->'),
    'unit': lambda i: E('e', [('i18n:translate', '')], ['aa bb']),
    'unid': lambda i: E('e', [('i18n:translate', 'm')], ['some much longer text']),
    'uname': lambda i: E('tal:x', [('i18n:translate', '')], ['q\n', E('b', [('i18n:name', 'n')], ['w']), 'cd']),
    'script': lambda i: E('e', [('tal:script', 'text/server-x')], ['some code']),
    'esc': lambda i: E('e', [('tal:content', 'q')], ['x']),
    'escnl': lambda i: E('e', [('tal:replace', 'qn')], ['x']),
    'escx': lambda i: E('e', [('i18n:translate', ''), ('tal:content', 'q')], ['x']),
    'escs': lambda i: E('tal:x', [('replace', 'structure qs')], ['x']),
    'static': lambda i: E('s', [('a', 'static'), ('b', 'attributes')], ['x']),
}
ENV = {'t': 'abc', 'q': '<&>&<', 'qn': '<\n&&&<', 'qs': '&lt;u&gt;<u/>&amp;', 'n': 'ab\ncd', 'n1': '\nabcdef', 'n2': 'abcdef\n', 's': '<u a="1">u</u>', 'sn': 'a<b>b</b>\nc', 'k': 'K', 'l': 'L' * 6, 'm': None, 'r': '12', 'o': 1, 'f': 0, 'df': DEFAULT, 'h': 'H', 'boom': Raise()}
BASE = {}


def gen_ctx(n):
    def gen():
        for k in range(0, n + 1):
            for c in itertools.product(sorted(CTX), repeat=k):
                yield c
    return gen


def judge_ctx(c, rec, widths=range(0, 56)):
    for xml in (False, True):
        if xml not in BASE:
            BASE[xml] = diff.Scenario(LIB, xml)
        try:
            sc = diff.Scenario([('page', [E('s', (), [CTX[k](i) for i, k in enumerate(c)] + [E('dz', D, ['end']), T('.')])])], xml, base=BASE[xml])
        except diff.Rejected as e:
            return rejected(e)
        if len(c) > 2:
            widths = range(2, 56, 3)
        d = sweep(sc, ENV, widths, rec) or annotated(sc, ENV, rec)
        if d is None and {'snl', 'struct', 'repl'} & set(c):
            d = sweep(sc, ENV, widths, rec, strictinsert=0)
        if d:
            return d


# ---- source annotations
MARK = re.compile(r'(?<![\w"])([pAB]\d+)(?!\w)')


def lines_of(sc):
    """marker -> (file, line of its element, line of the marker)"""
    out = {}
    for f, src in sc.src.items():
        for m in re.finditer(r'<[^<>]*>([pAB]\d+)\b', src):
            out[m.group(1)] = (f, src.count('\n', 0, m.start()) + 1, src.count('\n', 0, m.end()) + 1)
    return out


def annotated(sc, env, rec, strict=True, **kw):
    plain = sc.expect(env, **kw)
    act = sc.actual(env, sourceAnnotations=1, **kw)
    rec.execution(plain.trace + [('annotated',)], final=plain.error or plain.text)

    def bad(problem, **more):
        return dict(more, problem='annotations: ' + problem, source=dict(sc.src), data=repr(env),
                    plain=plain.error or plain.text, annotated=act.error or act.text)
    if plain.error or act.error:
        if plain.error != act.error:
            return bad('failure differs')
        return
    if act.trace != plain.trace:
        return bad('engine calls differ')
    if NOTE.sub('', act.text) != plain.text:
        return bad('document differs')
    if plain.text.strip() and not NOTE.search(act.text):
        return bad('none present')
    if re.match(r'\s*<\?xml', plain.text) and not re.match(r'\s*<\?xml', act.text):
        return bad('before the XML declaration')
    where = lines_of(sc)
    cur = None
    end = 0
    for m in re.finditer('%s|%s' % (NOTE.pattern, MARK.pattern), act.text):
        if m.group(3) is None:
            cur = (m.group(1), m.group(2) and int(m.group(2)))
            fresh = True
        elif act.text.count('[', 0, m.start()) > act.text.count(']', 0, m.start()):
            pass                       # within translated text
        else:
            f, lo, hi = where[m.group(3)]
            if cur is None:
                return bad('nothing says where %s comes from' % m.group(3))
            if cur[0] != f:
                return bad('%s comes from %s, not %s' % (m.group(3), f, cur[0]))
            if fresh and cur[1] and re.fullmatch(r'\s*(<\w[^<>]*>)?', act.text[end:m.start()]) and not (lo if strict else 1) <= cur[1] <= hi:
                return bad('%s comes from line %s, not %s' % (m.group(3), lo, cur[1]))
            fresh = False
        end = m.end()
    d = NOTE.findall(sc.actual(env, **kw).text)
    if d:
        return bad('present without being asked for')


ALPHA = ('use', 'fill', 'txt', 'stx', 'att', 'loop', 'omit', 'err', 'tal', 'unit', 'name', 'unid')
LIBBASE = {}


def gen_terms(n):
    def gen():
        for k in range(1, n + 1):
            for f in terms.forests(k, ALPHA, 2, False, False):
                for lib in sorted(LIBS):
                    if kinds(f) & {'use'} or lib == 'slot':
                        yield lib, f
    return gen


def judge_terms(case, rec):
    lib, f = case
    for xml in (False, True):
        if (lib, xml) not in LIBBASE:
            LIBBASE[lib, xml] = diff.Scenario(libnodes(lib), xml)
        try:
            sc = diff.Scenario([('page', terms.page(f))], xml, base=LIBBASE[lib, xml])
        except diff.Rejected as e:
            return rejected(e)
        env = Auto()
        d = annotated(sc, env, rec) or sweep(sc, env, (1, 9, 18, 30), rec, columns=False)
        if d:
            return d
        if kinds(f) & {'err'}:
            n = len(sc.expect(env).trace)
            for i in range(n):
                d = annotated(sc, env, rec, fail_at=(i,))
                if d:
                    return d


# ---- the beginning of the document
HEAD = ['', ' ', '\n', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', '<!DOCTYPE r>', '\n<!DOCTYPE r>\n', '<!-- c -->', '<?pi x?>']
FIRST = [('s', []), ('e', [('tal:content', 't')]), ('e', [('tal:attributes', 'k k')]), ('e', [('tal:replace', 't')]), ('e', [('tal:condition', 'c')]),
         ('e', [('tal:repeat', 'x r')]), ('e', [('i18n:translate', '')]), ('tal:x', [('i18n:translate', '')]), ('tal:x', [('omit-tag', 'o')]),
         ('tal:x', [('on-error', 'h')]), ('tal:x', [('on-error', 'h'), ('content', 'boom')]), ('tal:x', [('metal:use-macro', 'm1')]),
         ('e', [('metal:define-macro', 'zz')])]


def gen_head():
    for n in (1, 2):
        for h in itertools.product(range(len(HEAD)), repeat=n):
            if any(HEAD[x].startswith('<?xml') for x in h[1:]):
                continue
            for f in range(len(FIRST)):
                for g in range(len(FIRST)):
                    if f == g == len(FIRST) - 1:
                        continue       # a macro defined twice
                    yield h, f, g


def judge_head(case, rec):
    h, f, g = case
    env = dict(ENV, c=0)
    for xml in (False, True):
        if xml not in BASE:
            BASE[xml] = diff.Scenario(LIB, xml)
        body = [E(FIRST[f][0], FIRST[f][1] if not xml or FIRST[f][0] != 'tal:x' else [(k if ':' in k else 'tal:' + k, v) for k, v in FIRST[f][1]], ['p1']),
                T('\n'), E(FIRST[g][0], [(k if ':' in k or not xml else 'tal:' + k, v) for k, v in FIRST[g][1]], ['p2'])]
        head = ''.join(HEAD[x] for x in h)
        if not xml:
            nodes = [T(head)] + body
            try:
                sc = diff.Scenario([('page', nodes)], xml, base=BASE[xml])
            except diff.Rejected as e:
                return rejected(e)
            d = annotated(sc, env, rec, strict=False)
        else:
            d = head_xml(head, body, env, rec)
        if d:
            return d


def head_xml(head, body, env, rec):
    """The prologue of XML documents is not in the model: compare two runs."""
    from mc import ast
    src = head + ast.to_source(ast.xml_doc(body))
    try:
        prog = real.compile_source(src, True, 'page')
    except real.ExpatError:
        return
    e1, e2 = Engine(env, BASE[True].im), Engine(env, BASE[True].im)
    a = diff.run(lambda: real.render(*prog, e1), e1)
    b = diff.run(lambda: real.render(*prog, e2, sourceAnnotations=1), e2)
    rec.execution(a.trace, final=a.text)
    if (a.error, a.trace) != (b.error, b.trace):
        p = 'failure or engine calls differ'
    elif NOTE.sub('', b.text) != a.text:
        p = 'document differs'
    elif not NOTE.search(b.text):
        p = 'none present'
    elif '<?xml' in a.text and not b.text.startswith('<?xml'):
        p = 'before the XML declaration'
    else:
        return
    return {'problem': 'annotations: ' + p, 'source': src, 'plain': a.text, 'annotated': b.text}


# ---- where output comes from after a macro or slot, however the element is closed
USE = ['<u metal:use-macro="m"/>', '<u metal:use-macro="m"></u>', '<u metal:use-macro="m">\n x\n</u>', '<u metal:use-macro="m"\n/>',
       '<u metal:use-macro="m"><f metal:fill-slot="a"/></u>', '<u metal:use-macro="m">\n<f metal:fill-slot="a">Fpage</f>\n</u>',
       '<u metal:use-macro="m"><f metal:fill-slot="a">\n\n<v metal:use-macro="n"/>Fpage</f></u>']
SLOT = ['<s metal:define-slot="a"/>', '<s metal:define-slot="a"></s>', '<s metal:define-slot="a">\n\n\n</s>', '<s metal:define-slot="a"\n/>',
        '<s metal:define-slot="a">\nFlib<v metal:use-macro="n"/>\n</s>']
NOTEMARK = re.compile('%s|(?<![\\w"])([GF](?:page|lib|sub))(?!\\w)' % NOTE.pattern)


def gen_after():
    for u in USE:
        for s_ in SLOT:
            for a, b, c in itertools.product((0, 1, 5), repeat=3):
                for gap in ('', '\n\n'):
                    yield u, s_, a, b, c, gap


def judge_after(case, rec):
    u, s_, a, b, c, gap = case
    src = {'sub': '<o>' + '\n' * c + '<m metal:define-macro="n">Fsub</m></o>',
           'lib': '<o>' + '\n' * a + '<m metal:define-macro="m">' + s_ + gap + 'Glib</m></o>',
           'page': '<o>' + '\n' * b + u + gap + 'Gpage</o>'}
    for xml in (False, True):
        head = '<o ' + ' '.join('%s="%s"' % kv for kv in dress.XMLNS) + '>'
        t = {f: head + x[3:] if xml else x for f, x in src.items()}
        prog = {f: real.compile_source(t[f], xml, f) for f in t}
        macros = dict(prog['lib'][1], **prog['sub'][1])
        e1, e2 = Engine(Auto(), macros), Engine(Auto(), macros)
        plain = diff.run(lambda: real.render(*prog['page'], e1), e1)
        act = diff.run(lambda: real.render(*prog['page'], e2, sourceAnnotations=1), e2)
        rec.execution(plain.trace + [('annotated',)], final=plain.error or plain.text)
        problem = None
        if plain.error or act.error or plain.trace != act.trace or NOTE.sub('', act.text) != plain.text:
            problem = 'document differs'
        else:
            cur = None
            for m in NOTEMARK.finditer(act.text):
                if m.group(3) is None:
                    cur = m.group(1), int(m.group(2) or 0)
                    continue
                f = m.group(3)[1:]
                last = t[f].count('\n', 0, t[f].index(m.group(3))) + 1
                first = t[f].count('\n', 0, re.search('<[usfm] ', t[f]).start()) + 1
                if cur is None or cur[0] != f or not first <= cur[1] <= last:
                    problem = '%s comes from %s, lines %d to %d, not %r' % (m.group(3), f, first, last, cur)
                    break
        if problem:
            return {'problem': 'annotations: ' + problem, 'source': t, 'plain': plain.error or plain.text, 'annotated': act.error or act.text}


# ---- dressed elements
def judge_dressed(fs, rec):
    for sc, es in dress.scenarios(fs, True):
        for env in (es[0], es[-1]):
            d = annotated(sc, env, rec) or sweep(sc, env, (1, 12, 25), rec, columns=False)
            if d:
                d['features'] = repr(fs)
                return d


# ---- tracing
class Null:
    lines = 0

    def write(self, s):
        self.lines += 1

    def flush(self):
        pass


def judge_debug(fs, rec):
    for sc, es in dress.scenarios(fs, True):
        for env in (es[0], es[-1]):
            for kw in ({}, {'wrap': 20}, {'fail_at': (2,)}):
                a = sc.actual(env, **kw)
                err, sys.stderr = sys.stderr, Null()
                try:
                    b = sc.actual(env, debug=1, **kw)
                    n = sys.stderr.lines
                finally:
                    sys.stderr = err
                rec.execution(a.trace, final=a.error or a.text)
                if (a.text, a.error, a.trace) != (b.text, b.error, b.trace):
                    return {'problem': 'tracing changes the result', 'source': dict(sc.src), 'data': repr(env), 'options': kw,
                            'plain': a.error or a.text, 'traced': b.error or b.text}
                if not n:
                    return {'problem': 'nothing was traced', 'source': dict(sc.src)}


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    return [
        Space('dressed', lambda: dress.combos(0, 3 + d), judge_dressed, dress.WHAT % (3 + d, '') + ', 3 widths; annotations'),
        Space('debug', lambda: dress.combos(0, 2 + d), judge_debug, dress.WHAT % (2 + d, '') + ', traced and not, 3 option sets'),
        Space('tags', gen_tags(3 + d), judge_tags, '<=%d of 10 attributes in every order, 4 prefixes x 2 names x 2 forms, widths 0..59, HTML and XML' % (3 + d)),
        Space('after', gen_after, judge_after, '7 uses x 5 slots, closed in every way, on different lines of three files; annotations'),
        Space('context', gen_ctx(3 + d), judge_ctx, '<=%d of 34 kinds of preceding output, widths 0..55 (every third after 3 of them), annotations' % (3 + d)),
        Space('terms', gen_terms(3 + d), judge_terms, 'all pages of <=%d constructors x 4 macro libraries x 4 widths; annotations; every failure point under tal:on-error' % (3 + d)),
        Space('head', gen_head, judge_head, '9 prologue pieces (<=2) x 13 first x 13 second elements'),
    ]
