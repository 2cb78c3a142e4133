"""C22: statement lists are split and parsed exactly as documented."""
from mc import ast, real
from mc.ast import XMLNS
from mc.engine import Engine

from .lib import *

ASSUMPTIONS = ['statement texts are built from the listed tokens']
WS = ' \t\n\r\x0b\x0c'
FIRST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
REST = FIRST + '0123456789-'


class Bad(Exception):
    pass


# ---- the documented syntax, character by character
def parts(s):
    res, cur, i = [], '', 0
    while i < len(s):
        c = s[i]
        i += 1
        if c == ';':
            if i < len(s) and s[i] == ';':
                cur += ';'
                i += 1
            else:
                res.append(cur)
                cur = ''
        else:
            cur += c
    if cur.strip(WS) or not res:
        res.append(cur)
    return res


def skip(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    return i


def word(s, i):
    """Name starting at i followed by white space: (name, index of what follows) or None."""
    j = i
    if j < len(s) and s[j] in FIRST:
        j += 1
        while j < len(s) and s[j] in REST:
            j += 1
        k = skip(s, j)
        if k > j:
            return s[i:j], k
    return None


def p_define(s):
    res = []
    for p in parts(s):
        i = skip(p, 0)
        w = word(p, i)
        if w is None:
            raise Bad
        scope = 'local'
        if w[0] in ('global', 'local'):
            w2 = word(p, w[1])
            if w2 is not None:
                scope, w = w[0], w2
        res.append((scope, w[0], p[w[1]:]))
    return res


def p_attributes(s, xml):
    res = {}
    for p in parts(s):
        i = skip(p, 0)
        j = i
        while j < len(p) and p[j] not in WS:
            j += 1
        k = skip(p, j)
        if j == i or k == j or k == len(p):
            raise Bad
        n = p[i:j] if xml else p[i:j].lower()
        if n in res:
            raise Bad
        res[n] = p[k:]
    return res


def p_i18n(s, xml):
    res = {}
    for p in s.split(';'):
        if not p:
            continue
        w = p.split()
        if len(w) not in (1, 2):
            raise Bad
        n = w[0] if xml else w[0].lower()
        if n in res:
            raise Bad
        res[n] = w[1] if len(w) == 2 else None
    return res


def p_subst(s):
    i = skip(s, 0)
    for kw in ('text', 'structure'):
        j = i + len(kw)
        if s[i:j] == kw and skip(s, j) > j:
            return kw, s[skip(s, j):]
    return 'text', s[i:]


def p_repeat(s):
    w = word(s, skip(s, 0))
    if w is None:
        raise Bad
    return w[0], s[w[1]:]


# ---- observation
class Eng(Engine):
    def __init__(self):
        Engine.__init__(self, {})
        self.log = []
        self.n = 0

    def _eval(self, kind, cexpr):
        self.n += 1
        self.log.append((kind, cexpr[1]))
        return ('V%d' % self.n) if kind != 'seq' else ['I']

    def setLocal(self, name, value):
        if name not in ('attrs', 'macroname'):
            self.log.append(('local', name, value))
        Engine.setLocal(self, name, value)

    def setGlobal(self, name, value):
        self.log.append(('global', name, value))

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.log.append(('translate', str(msgid)))
        return 't(%s)' % msgid


def observe(stmt, text, xml, static=()):
    body = E('q', list(static) + [(stmt, text)], ['body'])
    nodes = [E('r', XMLNS, [body])] if xml else [body]
    src = ast.to_source(nodes)
    try:
        prog = real.compile_source(src, xml, 'page')
    except real.TALError as e:
        return src, 'rejected', None
    except Exception as e:
        return src, 'failed: %r' % e, None
    eng = Eng()
    try:
        out = real.render(*prog, eng)
    except Exception as e:
        return src, 'rendering failed: %r' % e, eng.log
    if xml:
        out = out[3:-4]
    return src, out, eng.log


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


STATIC = [('a', '1'), ('title', 'two words')]


def expect(stmt, s, xml):
    """(output, log) or Bad."""
    if s == '' and stmt != 'tal:omit-tag':
        raise Bad
    name = stmt.split(':')[1]
    if name == 'define':
        log = []
        for n, (scope, var, x) in enumerate(p_define(s), 1):
            log += [('value', x), (scope, var, 'V%d' % n)]
        return '<q>body</q>', log
    if stmt == 'tal:attributes':
        d = p_attributes(s, xml)
        log, out, left = [], '', dict(d)
        for k, v in STATIC:
            if k in left:
                log.append(('text', left.pop(k)))
                v = 'V%d' % len(log)
            out += ' %s="%s"' % (k, v)
        for k in sorted(left):
            log.append(('text', left[k]))
            out += ' %s="V%d"' % (k, len(log))
        return '<q%s>body</q>' % out, log
    if stmt == 'i18n:attributes':
        d = p_i18n(s, xml)
        if any(k not in ('a', 'title') and v is None for k, v in d.items()):
            return None
        log, out = [], ''
        for k, v in STATIC:
            if k in d:
                log.append(('translate', d[k] or v))
                v = 't(%s)' % (d[k] or v)
            out += ' %s="%s"' % (k, esc(v))
        for k in sorted(d):
            if k not in ('a', 'title'):
                log.append(('translate', d[k]))
                out += ' %s="%s"' % (k, esc('t(%s)' % d[k]))
        return '<q%s>body</q>' % out, log
    if name in ('content', 'replace'):
        kind, x = p_subst(s)
        return ('<q>V1</q>' if name == 'content' else 'V1'), [('text' if kind == 'text' else 'struct', x)]
    if name == 'repeat':
        var, x = p_repeat(s)
        return '<q>body</q>', [('seq', x), ('local', var, 'I')]
    if name == 'condition':
        return '<q>body</q>', [('bool', s)]
    if name == 'omit-tag':
        return 'body', ([('bool', s)] if s else [])
    raise AssertionError(stmt)


STMTS = {
    'tal:define': ['x', ' ', ';', 'global', 'y2', ';;', 'local', '\n', '\t', '-', '1', "it's", '$é', '_'],
    'tal:attributes': ['a', ' ', ';', 'b', ';;', '\n', '\t', 'title', 'A', 'x:y', "'", '1', '-'],
    'i18n:attributes': ['a', ' ', ';', 'b', ';;', '\n', '\t', 'title', 'm-1', 'A', '${x}'],
    'tal:content': ['text', ' ', 'structure', 'x', ';', ';;', '\n', '\t', 'nothing', '|', 'Text'],
    'tal:replace': ['text', ' ', 'structure', 'x', ';', ';;', '\n', '\t', '|'],
    'tal:repeat': ['i', ' ', ';', 'x', ';;', '\n', '\t', '1', '-', 'python:', "'"],
    'tal:condition': ['x', ' ', ';', ';;', '\n', '\t', 'text', '-', 'not:'],
    'tal:omit-tag': ['x', ' ', ';', ';;', '\n', '\t', 'text', '-'],
}


def gen(stmt, n, nx):
    toks = STMTS[stmt]

    def g():
        for k in range(0, n + 1):
            for t in itertools.product(toks, repeat=k):
                yield stmt, ''.join(t), k <= nx
    return g


ODD = ['\0', ';', ';;', ' ', 'b ', '\x01', '\x7f', '\\', '\ufffd', '\U0001f600']


def gen_odd(n):
    """Characters that might be taken for something else."""
    def g():
        for stmt in STMTS:
            for k in range(1, n + 1):
                for t in itertools.product(ODD, repeat=k):
                    yield stmt, 'a ' + ''.join(t), False
    return g


def judge(case, rec):
    stmt, s, both = case
    static = STATIC if stmt.endswith('attributes') else ()
    for xml in ((False, True) if both else (False,)):
        if xml and s == '':
            pass
        try:
            exp = expect(stmt, s, xml)
        except Bad:
            exp = 'rejected', None
        if exp is None:
            continue
        src, out, log = observe(stmt, s, xml, static)
        rec.execution(exp[1] or (), final=exp[0])
        if (out, log) != exp:
            return {'problem': 'statement read differently', 'source': src, 'expected': exp, 'actual': (out, log)}


# ---- on-error, i18n:data, define + attributes together, on real failures
def gen_err(n):
    def g():
        for k in range(1, n + 1):
            for t in itertools.product(STMTS['tal:content'], repeat=k):
                yield ''.join(t)
    return g


class Fail(Eng):
    def _eval(self, kind, cexpr):
        v = Eng._eval(self, kind, cexpr)
        if cexpr[1] == 'FAIL':
            raise ValueError
        return v

    def createErrorInfo(self, exc, pos):
        return None


def judge_err(s, rec):
    for xml in (False, True):
        nodes = [E('q', [('tal:on-error', s)], [E('i', [('tal:content', 'FAIL')], [])])]
        src = ast.to_source([E('r', XMLNS, nodes)] if xml else nodes)
        kind, x = p_subst(s)
        exp = '<q>V2</q>', [('text', 'FAIL'), ('local', 'error', None), ('text' if kind == 'text' else 'struct', x)]
        eng = Fail()
        try:
            out = real.render(*real.compile_source(src, xml, 'page'), eng)
        except Exception as e:
            return {'problem': 'failed: %r' % e, 'source': src}
        if xml:
            out = out[3:-4]
        rec.execution(exp[1], final=exp[0])
        if (out, eng.log) != exp:
            return {'problem': 'statement read differently', 'source': src, 'expected': exp, 'actual': (out, eng.log)}


# ---- names
def gen_names(n):
    toks = ['m', ' ', '\n', '\t', '-', '1', '.', '_', 'é', '/']

    def g():
        for k in range(1, n + 1):
            for t in itertools.product(toks, repeat=k):
                yield ''.join(t)
    return g


def isname(s):
    return bool(s) and s[0] in FIRST and all(c in REST for c in s[1:])


def judge_names(s, rec):
    name = s.strip()
    good = isname(name)
    for what, src in (('macro', '<q metal:define-macro="%s">m</q>'), ('slot', '<q metal:define-macro="z"><i metal:define-slot="%s"/></q>'),
                      ('fill', '<q metal:use-macro="z"><i metal:fill-slot="%s"/></q>'),
                      ('name', '<q i18n:translate=""><i i18n:name="%s"/></q>')):
        text = src % s
        try:
            prog, macros = real.compile_source(text, False, 'page')
            ok = True
        except real.TALError:
            ok = False
        want = isname(s) if what == 'name' else good
        rec.execution([what, s], final=want)
        if ok != want:
            return {'problem': 'name %s' % ('accepted' if ok else 'rejected'), 'source': text}
        if ok and what == 'macro' and list(macros) != [name]:
            return {'problem': 'macro registered under another name', 'source': text, 'actual': list(macros)}
    if good:
        # filler and slot meet although written with different white space
        _, m = real.compile_source('<q metal:define-macro="z"><i metal:define-slot="%s">D</i></q>' % s, False, 'lib')
        p = real.compile_source('<q metal:use-macro="z"><i metal:fill-slot=" %s\n">F</i></q>' % name, False, 'page')
        out = real.render(*p, Engine({}, {'z': m['z']}))
        rec.execution([s, 'use'], final=out)
        if out != '<q><i>F</i></q>':
            return {'problem': 'slot not filled', 'name': s, 'actual': out}


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    n = {'tal:define': 5, 'tal:attributes': 5, 'i18n:attributes': 5, 'tal:content': 4, 'tal:replace': 4, 'tal:repeat': 5,
         'tal:condition': 4, 'tal:omit-tag': 4}
    out = [Space(s.split(':')[1] if s != 'i18n:attributes' else 'i18n-attributes', gen(s, n[s] + d, n[s] - 1), judge,
                 'all texts of <=%d of %d tokens, HTML (XML up to %d)' % (n[s] + d, len(STMTS[s]), n[s] - 1)) for s in STMTS]
    out.append(Space('odd', gen_odd(4 + d), judge, 'a and all texts of <=%d of %d tokens, HTML, all statements' % (4 + d, len(ODD))))
    out.append(Space('on-error', gen_err(4 + d), judge_err, 'all texts of <=%d tokens' % (4 + d)))
    out.append(Space('names', gen_names(4 + d), judge_names, 'all names of <=%d of 10 tokens' % (4 + d)))
    return out
