"""C17: invalid templates are rejected at compile time with a positioned error."""
import os
import re
import tempfile

from mc import ast, real, ref
from mc.engine import DEFAULT, Engine

from .lib import *

ASSUMPTIONS = ['a template with several independent misuses must be rejected, for any of them']
FAMILY = {'TALError': real.TALError, 'METALError': real.METALError, 'I18NError': real.I18NError}


NUM = re.compile(r'\d+')


class Env(dict):
    def __missing__(self, k):
        return {'z': 'Z'} if k == 'z' else '12'


class Macros(dict):
    def get(self, k, d=None):
        return DEFAULT


def verdict(nodes, xml):
    try:
        ref.Template(nodes, xml, 'page')
    except ref.Reject as r:
        return r
    return None


def elements(nodes):
    for n in nodes:
        if n.__class__ is not T:
            yield n
            yield from elements(n.kids)


def single_fault(nodes, xml):
    """Does leaving out one directive make the template valid?"""
    for e in elements(nodes):
        for i in range(len(e.attrs)):
            save = list(e.attrs)
            del e.attrs[i]
            ok = verdict(nodes, xml) is None
            e.attrs[:] = save
            if ok:
                return True
    return False


def judge_nodes(nodes, xml, rec):
    full = ast.xml_doc(nodes) if xml else nodes
    src = ast.to_source(full)
    r = verdict(full, xml)
    try:
        prog = real.compile_source(src, xml, 'page')
        got = None
    except real.TALError as e:
        got = e
    except Exception as e:
        rec.execution([src])
        return {'problem': 'compiler failed with %s: %s' % (type(e).__name__, e), 'source': src, 'xml': xml,
                'expected': r.kind if r else 'compiles'}
    if r is None:
        rec.execution([src], final='ok')
        if got is not None:
            return {'problem': 'valid template rejected: %s' % got, 'source': src, 'xml': xml}
        eng = Engine(Env(), Macros())
        try:
            real.render(*prog, eng)
        except Exception as e:
            return {'problem': 'accepted template cannot be rendered: %s: %s' % (type(e).__name__, e), 'source': src, 'xml': xml}
        return
    rec.execution([src], final=(r.kind, r.pos, r.why))
    if got is None:
        return {'problem': 'misuse not rejected (%s)' % r.why, 'source': src, 'xml': xml, 'expected': (r.kind, r.pos)}
    pos = got.lineno, got.offset
    if pos not in [e.pos for e in elements(full)]:
        return {'problem': 'error without the position of an element', 'source': src, 'actual': pos, 'error': str(got)}
    if '%d' % pos[0] not in NUM.findall(str(got)) or '%d' % (pos[1] + 1) not in NUM.findall(str(got)):
        return {'problem': 'message without line and column', 'source': src, 'actual': str(got), 'expected': pos}
    if pos == r.pos and type(got).__name__ == r.kind:
        return
    if single_fault(full, xml):
        return {'problem': 'error differs (%s)' % r.why, 'source': src, 'xml': xml, 'expected': (r.kind, r.pos),
                'actual': (type(got).__name__, pos, str(got))}


# ---- one element: every combination of directives and of good and bad values
D = {
    'tal:define': ['x d', 'x', '', '1 d', 'x bad', 'x d; y'],
    'tal:condition': ['c', '', 'bad'],
    'tal:repeat': ['y r', 'y', '', 'y bad', '-y r'],
    'tal:omit-tag': ['', 'o', 'bad'],
    'tal:attributes': ['k k', 'k', '', 'k bad', 'k a; k b', 'k a; k a', 'k a;; k b', 'alt k'],
    'tal:content': ['t', '', 'structure s', 'bad', 'structure bad'],
    'tal:replace': ['t', '', 'structure s', 'bad'],
    'tal:on-error': ['h', '', 'structure h', 'bad'],
    'tal:foo': ['x'], 'tal:Content': ['x'],
    'metal:define-macro': ['m', '', 'm 2', '1', ' m '],
    'metal:extend-macro': ['e', '', 'bad'],
    'metal:use-macro': ['u', '', 'bad'],
    'metal:define-slot': ['s', '', '1s', ' s'],
    'metal:fill-slot': ['f', '', 'f g'],
    'metal:foo': ['x', ''],
    'i18n:translate': ['', 'id'],
    'i18n:domain': ['d', ''],
    'i18n:source': ['s'], 'i18n:target': ['t'],
    'i18n:attributes': ['title', 'title a', '', 'title a b', 'title;title', 'alt id', ' '],
    'i18n:data': ['z', '', 'structure z', 'bad'],
    'i18n:name': ['n', '', 'n m', '1'],
    'i18n:foo': ['x'], 'i18n:ignore': [''], 'i18n:ignore-attributes': ['x'],
    'title': ['t'],
}
CONTEXTS = {
    'top': lambda e: [e],
    'macro': lambda e: [E('o', [('metal:define-macro', 'mm')], [e])],
    'use': lambda e: [E('o', [('metal:use-macro', 'u')], [e])],
    'fill': lambda e: [E('o', [('metal:use-macro', 'u')], [E('z', [('metal:fill-slot', 'f0')], [e])])],
    'unit': lambda e: [E('o', [('i18n:translate', '')], [T('t '), e])],
    'named': lambda e: [E('o', [('i18n:translate', '')], [E('z', [('i18n:name', 'n0')], [e])])],
    'slot': lambda e: [E('o', [('metal:define-macro', 'mm')], [E('z', [('metal:define-slot', 's0')], [e])])],
    'after': lambda e: [E('z', [('metal:define-macro', 'm')], ['x']), T('\n  '), e],
    'afterunit': lambda e: [E('z', [('i18n:translate', ''), ('tal:content', 't')], ['x']), T('\n'), e],
}
FORMS = {'el': ('q', '', ['k']), 'self': ('q', '/', []), 'void': ('br', 'v', []), 'tal': ('tal:q', '', ['k']), 'voidself': ('br', '/', [])}


def quirk(a, form, ctx, xml):
    """Combinations that other properties' assumptions leave out."""
    names = [k for k, _ in a]
    if form.startswith('void') and 'i18n:translate' in names:
        return True
    return False


def gen_single(n, forms, contexts):
    def gen():
        names = list(D)
        for k in range(0, n + 1):
            for c in itertools.combinations(names, k):
                for vals in itertools.product(*[D[x] for x in c]):
                    a = tuple(zip(c, vals))
                    for form in forms:
                        for ctx in contexts:
                            for xml in (False, True):
                                if (xml and form == 'void') or quirk(a, form, ctx, xml):
                                    continue
                                yield a, form, ctx, xml
    return gen


def unprefix(a, tag):
    """On a tal: element directives of that language need no prefix."""
    return list(a)


def judge_single(case, rec):
    a, form, ctx, xml = case
    tag, f, kids = FORMS[form]
    if tag == 'tal:q' and any(':' not in k for k, _ in a):
        return
    return judge_nodes(CONTEXTS[ctx](E(tag, a, list(kids), f)), xml, rec)


# ---- HTML: attribute forms
def gen_forms():
    names = ['content', 'replace', 'define', 'condition', 'repeat', 'on-error', 'attributes', 'omit-tag', 'foo']
    for lang, ns in (('tal', names), ('metal', ['define-macro', 'use-macro', 'define-slot', 'fill-slot', 'extend-macro', 'x']),
                     ('i18n', ['translate', 'domain', 'attributes', 'name', 'data', 'x'])):
        for n in ns:
            for form in ('valueless', 'twice', 'upper', 'twice-upper', 'on-tal', 'on-metal', 'on-i18n'):
                for ctx in CONTEXTS:
                    yield lang, n, form, ctx


def judge_forms(case, rec):
    lang, n, form, ctx = case
    k = lang + ':' + n
    good = (D.get(k) or ['x'])[0]
    if form == 'valueless':
        if n in ('omit-tag', 'translate'):
            return                      # bare omit-tag / translate: not claimed
        e = E('q', [(k, None)], ['k'])
    elif form == 'twice':
        e = E('q', [(k, good), (k, good)], ['k'])
    elif form == 'upper':
        e = E('q', [('title', 't'), (k.upper(), good)], ['k'])
    elif form == 'twice-upper':
        e = E('q', [('title', 't'), (k.upper(), good), (k, good)], ['k'])
    else:
        tag = form[3:] + ':q'
        e = E(tag, [(n, good)], ['k'])
        if k == 'i18n:attributes':
            return
    if quirk(e.attrs, 'el', ctx, False):
        return
    return judge_nodes(CONTEXTS[ctx](e), False, rec)


# ---- a statement given with and without prefix on an element of its language
def gen_twice():
    for k in D:
        lang, _, n = k.partition(':')
        if n:
            for v1, v2 in itertools.product(D[k][:2] + D[k][-1:], repeat=2):
                for first in (0, 1):
                    for between in ((), (('tal:condition', 'c'),), (('title', 't'),)):
                        if k != 'tal:condition' or not between:
                            for ctx in CONTEXTS:
                                for form in ('', '/'):
                                    for xml in (False, True):
                                        yield lang, n, v1, v2, first, between, ctx, form, xml


def judge_twice(case, rec):
    lang, n, v1, v2, first, between, ctx, form, xml = case
    a = [(n, v1), (lang + ':' + n, v2)]
    if first:
        a.reverse()
    a[1:1] = between
    return judge_nodes(CONTEXTS[ctx](E(lang + ':q', a, [] if form else ['k'], form)), xml, rec)


# ---- placement: where macros, slots, fillers, units and names may occur
P = [(), (('metal:define-macro', 'm'),), (('metal:define-macro', 'n'),), (('metal:use-macro', 'u'),),
     (('metal:define-macro', 'm'), ('metal:extend-macro', 'u')), (('metal:define-slot', 'a'),), (('metal:define-slot', 'b'),),
     (('metal:fill-slot', 'a'),), (('metal:fill-slot', 'b'),), (('metal:fill-slot', 'a'), ('metal:define-slot', 'b')),
     (('i18n:translate', ''),), (('i18n:name', 'n'),), (('i18n:name', 'n'), ('i18n:translate', 'id')), (('tal:content', 't'),),
     (('metal:extend-macro', 'u'),), (('i18n:name', 'n'), ('tal:replace', 't'))]
SHAPES = [(-1,), (-1, 0), (-1, -1), (-1, 0, 1), (-1, 0, 0), (-1, -1, -1), (-1, 0, -1), (-1, -1, 1)]
SHAPES4 = [(-1, 0, 1, 2), (-1, 0, 1, 1), (-1, 0, 0, 0), (-1, 0, 1, 0), (-1, 0, 0, 1), (-1, 0, 0, 2), (-1, 0, 1, -1), (-1, -1, 1, 2)]


def gen_place(shapes, alpha):
    def gen():
        for sh in shapes:
            for sel in itertools.product(alpha, repeat=len(sh)):
                for xml in (False, True):
                    yield sh, sel, xml
    return gen


def judge_place(case, rec):
    sh, sel, xml = case
    els = [E('q%d' % i, list(a), ['k']) for i, a in enumerate(sel)]
    top = []
    for i, p in enumerate(sh):
        (top if p < 0 else els[p].kids).extend([T('\n' + ' ' * i), els[i]])
    # i18n:name inside content that is only rendered by default is a known finding
    return judge_nodes(top, xml, rec)


# ---- names that are nearly the same
NEAR = ['a', 'a ', ' a', '\na', 'a\t', 'A', 'b', 'a-b', 'a_b', 'ab', 'É', 'a.b', 'a:b', ' ', '1', '_', 'a1', '-a', 'a b', 'a\n']
TWO = {
    'macros': lambda x, y: [E('q', [('metal:define-macro', x)], ['1']), E('q', [('metal:define-macro', y)], ['2'])],
    'nested macros': lambda x, y: [E('q', [('metal:define-macro', x)], [E('q', [('metal:define-macro', y)], ['2'])])],
    'slots': lambda x, y: [E('q', [('metal:define-macro', 'm')], [E('s', [('metal:define-slot', x)]), E('s', [('metal:define-slot', y)])])],
    'fillers': lambda x, y: [E('q', [('metal:use-macro', 'u')], [E('s', [('metal:fill-slot', x)]), E('s', [('metal:fill-slot', y)])])],
    'nested fillers': lambda x, y: [E('q', [('metal:use-macro', 'u')], [E('s', [('metal:fill-slot', x)], [
        E('q', [('metal:use-macro', 'u')], [E('s', [('metal:fill-slot', y)])])])])],
    'fillers apart': lambda x, y: [E('q', [('metal:use-macro', 'u')], [E('s', [('metal:fill-slot', x)])]),
                                   E('q', [('metal:use-macro', 'u')], [E('s', [('metal:fill-slot', y)])])],
    'inner fillers': lambda x, y: [E('q', [('metal:use-macro', 'u')], [E('i', (), [E('s', [('metal:fill-slot', x)])]), E('s', [('metal:fill-slot', y)])])],
    'extension': lambda x, y: [E('q', [('metal:define-macro', 'm'), ('metal:extend-macro', 'u')], [
        E('s', [('metal:fill-slot', x)]), E('s', [('metal:fill-slot', y)])])],
    'refilled': lambda x, y: [E('q', [('metal:define-macro', 'm')], [E('q', [('metal:use-macro', 'u')], [
        E('s', [('metal:fill-slot', x), ('metal:define-slot', y)])])])],
    'attributes': lambda x, y: [E('q', [('tal:attributes', x + ' k;' + y + ' k')])],
    'i18n attributes': lambda x, y: [E('q', [('a', '1'), ('b', '2'), ('i18n:attributes', x + ' k;' + y + ' k')])],
    'both attributes': lambda x, y: [E('q', [('a', '1'), ('b', '2'), ('tal:attributes', x + ' k'), ('i18n:attributes', y + ' k')])],
    'defines': lambda x, y: [E('q', [('tal:define', x + ' k;' + y + ' k')])],
    'repeat': lambda x, y: [E('q', [('tal:repeat', x + ' r')], [E('q', [('tal:repeat', y + ' r')])])],
    'names': lambda x, y: [E('q', [('i18n:translate', '')], [E('i', [('i18n:name', x)], ['1']), E('i', [('i18n:name', y)], ['2'])])],
    'domains': lambda x, y: [E('q', [('i18n:domain', x)], [E('q', [('i18n:domain', y), ('i18n:translate', x)], ['1'])])],
    'uses': lambda x, y: [E('q', [('metal:use-macro', x)], [E('q', [('metal:use-macro', y)])])],
}


def gen_near():
    for how in TWO:
        for x in NEAR:
            for y in NEAR:
                for xml in (False, True):
                    yield how, x, y, xml


def judge_near(case, rec):
    how, x, y, xml = case
    return judge_nodes(TWO[how](x, y), xml, rec)


# ---- implied end tags of elements with directives (HTML)
def gen_implied():
    dirs = ['tal:content="t"', 'tal:define="x d"', 'metal:define-macro="m"', 'i18n:translate=""', 'metal:use-macro="u"',
            'tal:attributes="k k"', 'i18n:domain="d"', 'tal:omit-tag=""', 'class="c"', 'metal:fill-slot="f"', 'metal:define-slot="s"',
            'i18n:name="n"', 'tal:on-error="h"', 'tal:condition="c"', 'tal:repeat="y r"', 'tal:replace="t"', 'i18n:attributes="title a"',
            'metal:define-macro="m" metal:extend-macro="u"', 'metal:fill-slot="f" tal:content="t"', 'i18n:translate="" metal:define-slot="s"']
    for d in dirs:
        for tag, closer in (('p', '<p>x</p>'), ('li', '<li>x</li>'), ('td', '<td>x</td>'), ('p', '<div>x</div>'), ('b', ''), ('p', ''), ('b', 'END'),
                            ('p', '</p>'), ('dd', '<dt>x</dt>'), ('p', '<h1>x</h1>')):
            for pre in ('', '\n <i>', 'a\nb'):
                yield d, tag, closer, pre


def judge_implied(case, rec):
    d, tag, closer, pre = case
    # (no omitted end tag passes these)
    where = 'metal:use-macro="u"' if 'fill-slot' in d else 'metal:define-macro="mm"' if 'define-slot' in d else 'i18n:translate=""' if 'i18n:name' in d else ''
    head = '<body %s><div>' % where + pre if where else '<div>' + pre
    src = head + '<%s %s>text' % (tag, d) + ('' if closer == 'END' else closer) + ('' if closer == '' else '</div>')
    if closer == 'END' and '<i>' in pre:
        src = head + '<%s %s>text' % (tag, d) + '</div>'
    if where and closer:
        src += '</body>'
    line = head.count('\n') + 1
    col = len(head) - head.rfind('\n') - 1
    bad = d[:5] != 'class' and closer != '</p>'
    kind = None
    if bad:
        kind = 'METALError' if 'metal:' in d else 'TALError'
    rec.execution([src], final=kind)
    try:
        real.compile_source(src, False, 'page')
        got = None
    except real.TALError as e:
        got = type(e).__name__, (e.lineno, e.offset)
    except Exception as e:
        got = repr(e)
    exp = (kind, (line, col)) if bad else None
    if got != exp:
        return {'problem': 'element with directives whose end tag is left out', 'source': src, 'expected': exp, 'actual': got}


# ---- any text at all
TOK = ['<p', '>', '/>', '</p>', ' tal:content="x"', ' tal:define=""', '<tal:x', '</tal:x>', ' metal:use-macro="m"', ' metal:fill-slot="a"',
       ' i18n:name="n"', ' i18n:translate=""', ' xmlns:tal="u"', 'x', '&', '<!--', '<br', ' a=', '"', ' tal:x']
CHARS = list('<>/!?-&#;=" \'pt[]:x1\n') + ['tal:', 'script', 'xmlns']


def gen_tokens(n):
    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(TOK, repeat=k):
                yield ''.join(t)
    return gen


def gen_chars(n):
    def gen():
        for pre in ('', '<p ', '<tal:x ', '<script', '<!'):
            for k in range(0, n + (0 if pre else 1)):
                for t in itertools.product(CHARS, repeat=k):
                    yield pre + ''.join(t)
    return gen


def judge_any(s, rec):
    for xml in (False, True):
        src = ast.to_source(ast.xml_doc([T(s)])) if xml else s
        try:
            real.compile_source(src, xml, 'page')
            res = 'ok'
        except real.TALError as e:
            res = type(e).__name__
            if e.lineno is None or e.offset is None:
                return {'problem': 'error without position: %s' % e, 'source': src, 'xml': xml}
        except real.HTMLParseError as e:
            res = 'HTMLParseError'
            if e.lineno is None or xml:
                return {'problem': 'error without position: %s' % e, 'source': src, 'xml': xml}
        except real.ExpatError as e:
            res = 'ExpatError'
            if not xml:
                return {'problem': 'XML error for HTML: %s' % e, 'source': src}
        except Exception as e:
            rec.execution([s])
            return {'problem': 'compiler failed with %s: %s' % (type(e).__name__, e), 'source': src, 'xml': xml}
        rec.execution([s, xml], final=res)


def spaces(tier):
    deep = tier == 'thorough'
    ctx = list(CONTEXTS)
    return [
        Space('single', gen_single(2, list(FORMS), ctx), judge_single, 'all sets of <=2 of 27 attributes (1-7 values each) x 5 element forms x 9 contexts'),
        Space('triples', gen_single(3, ['el'] if not deep else ['el', 'self', 'tal'], ['unit', 'slot', 'fill', 'use'] if not deep else ctx), judge_single, 'all sets of 3'),
        Space('forms', gen_forms, judge_forms, '21 directives x 7 ways of writing them x 9 contexts'),
        Space('twice', gen_twice, judge_twice, '24 directives given with and without prefix on an element of their language, all pairs of 3 values x 9 contexts, HTML and XML'),
        Space('placement', gen_place(SHAPES, P), judge_place, '16 placements on trees of <=3 elements'),
        Space('placement4', gen_place(SHAPES4 if deep else SHAPES4[:4], P if deep else P[:12]), judge_place, 'trees of 4 elements'),
        Space('near-names', gen_near, judge_near, 'pairs of %d names at %d pairs of places' % (len(NEAR), len(TWO))),
        Space('implied', gen_implied, judge_implied, '20 sets of directives x 10 ways of leaving out the end tag'),
        Space('any-tokens', gen_tokens(5 if deep else 4), judge_any, 'all sequences of <=%d of 20 tokens' % (5 if deep else 4)),
        Space('any-chars', gen_chars(5 if deep else 4), judge_any, 'all sequences of <=%d of 24 characters behind 5 prefixes' % (5 if deep else 4)),
    ]
