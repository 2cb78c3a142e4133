"""C08: variables are visible exactly in the scope their statement gives them."""
from mc.real import Message

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = []
ALPHA = ('defl', 'defg', 'loop', 'txt', 'att', 'err', 'tal', 'unit', 'name', 'cond', 'use', 'fill', 'stx')
_bases = {}


def base(lib, xml):
    if (lib, xml) not in _bases:
        _bases[lib, xml] = scenario(libs.libnodes(lib), xml)
    return _bases[lib, xml]


def faults(sc, rec, **opt):
    d = diff.check(sc, Auto(), rec, output=False, watch=True, vars={'g0': 'G', 'x': 'X0'}, **opt)
    if d:
        return d
    n = sc.expect(Auto(), **opt).eng.nevals
    for k in range(1, n + 1):
        d = diff.check(sc, Auto(), rec, output=False, watch=True, fail_at=(k,), vars={'x': 'X0'}, **opt)
        if d:
            return d


def gen_terms(maxn):
    def gen():
        for n in range(1, maxn + 1):
            for f in terms.forests(n, ALPHA, 2, False, False):
                ls = list(libs.LIBS) if 'use' in libs.kinds(f) else ['slot']
                for lib in ls:
                    yield f, lib
    return gen


def judge_terms(case, rec):
    f, lib = case
    handled = 'err' in libs.kinds(f)
    for xml in (False, True):
        try:
            sc = scenario([('page', terms.page(f))], xml, base=base(lib, xml))
        except diff.Rejected as e:
            return rejected(e)
        if handled:
            d = faults(sc, rec)
        else:
            d = diff.check(sc, Auto(), rec, output=False, watch=True, vars={'g0': 'G', 'x': 'X0'})
        if d:
            return d


# ---- lookups through names: every way of defining the same variable at four places
DEFS = [None, ('tal:define', 'x d{i}'), ('tal:define', 'global x d{i}'), ('tal:define', 'x d{i}; global x d{i}b'),
        ('tal:repeat', 'x r{i}'), ('tal:define', 'x d{i}; y v:x; x d{i}b'), ('tal:define', 'global y v:x')]


def gen_lookup():
    for places in itertools.product(range(len(DEFS)), repeat=4):
        yield places


def judge_lookup(places, rec):
    def at(i):
        d = DEFS[places[i]]
        return [(d[0], d[1].format(i=i))] if d else []

    def probe():
        return E('q', [('tal:attributes', 'x v:x; y e:y'), ('tal:content', 'v:x')])
    for xml in (False, True):
        libn = [E('lib', (), [E('m', [('metal:define-macro', 'm')] + at(1), [
            probe(), E('s', [('metal:define-slot', 'a')] + at(2), [probe()]), probe()])])]
        pg = [E('pg', at(0), [
            probe(), T('\n'),
            E('u', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')] + at(3), [probe()])]),
            probe(), E('u', [('metal:use-macro', 'm')]), probe()]), probe()]
        try:
            sc = scenario([('lib', libn), ('page', pg)], xml)
        except diff.Rejected as e:
            return rejected(e)
        d = diff.check(sc, Auto(), rec, output=False, watch=True, vars={'x': 'X0'})
        if d:
            return d


# ---- the attrs mapping
def gen_attrs():
    names = [('id', 'i'), ('title', 'a&b'), ('class', None), ('tal:define', 'x d'), ('tal:attributes', 'id p'),
             ('tal:condition', 'c'), ('i18n:attributes', 'title'), ('metal:define-macro', 'mm')]
    for n in range(1, 5):
        for sub in itertools.permutations(names, n):
            if any(k == 'i18n:attributes' for k, _ in sub) and not any(k == 'title' for k, _ in sub):
                continue
            yield sub


def judge_attrs(sub, rec):
    for xml in (False, True):
        s = [(k, 'c' if xml and v is None else v) for k, v in sub]
        nodes = [E('p', s, [E('q', [('tal:content', 't')]), E('w', [('lang', 'x')], [E('q', [('tal:condition', 'c')])])])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as e:
            return rejected(e)
        d = diff.check(sc, Auto(), rec, output=False, watch=True)
        if d:
            return d


# ---- values of every kind given to variables at every place
VALUES = ['V', '', None, DEFAULT, 0, 1, False, True, (), ('l',), Message('m', 'dom', 'def'), {'k': 'v'}, 2.5]
FORMS = ['x d', 'global x d', 'x d; global x v:x', 'global x d; x v:x', 'y d; x v:y', 'x d2; x d', 'global x d2; global x d']


def gen_values():
    for v in range(len(VALUES)):
        for f in range(len(FORMS)):
            for place in range(5):
                for tag in ('p', 'tal:x'):
                    yield v, f, place, tag
    for items in itertools.product(range(len(VALUES)), repeat=2):
        for place in range(5):
            yield items, None, place, 'p'


def judge_values(case, rec):
    v, f, place, tag = case
    if f is None:
        env = {'d': tuple(VALUES[i] for i in v)}
        st = ('tal:repeat', 'x d')
    else:
        env = {'d': VALUES[v], 'd2': 'D2'}
        st = ('tal:define', FORMS[f])

    def at(i, tag='p'):
        return [(st[0][4:] if tag[:4] == 'tal:' else st[0], st[1])] if i == place else []

    def probe():
        return E('q', [('tal:condition', 'e:x')])
    for xml in (False, True):
        libn = [E('lib', (), [E('m', [('metal:define-macro', 'm')] + at(1), [
            probe(), E('s', [('metal:define-slot', 'a')] + at(2), [probe()]), probe()])])]
        pg = [E('pg', at(0), [
            probe(), E(tag, at(4, tag), [probe()]),
            E('u', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')] + at(3), [probe()])]),
            probe(), E('u', [('metal:use-macro', 'm')]), probe()]), probe()]
        try:
            sc = scenario([('lib', libn), ('page', pg)], xml)
        except diff.Rejected as e:
            return rejected(e)
        for vs in ({}, {'x': 'X0'}):
            d = diff.check(sc, env, rec, output=False, watch=True, vars=vs)
            if d:
                return d


# ---- the name under which a macro is used
EXPRS = ['m', 'a/m', 'a/b/m', 'a/b/c/m', '/m', 'm/', 'a//m', 'x.y/m-n', 'a b/m', '//']


def gen_names():
    for a in range(len(EXPRS)):
        for b in range(len(EXPRS)):
            for how in ('nested', 'extend', 'fill', 'twice', 'default', 'fail'):
                yield a, b, how


def judge_names(case, rec):
    a, b, how = EXPRS[case[0]], EXPRS[case[1]], case[2]
    if a == b and how != 'twice':
        return
    probe = lambda: E('q', [('tal:content', 'e:macroname')])
    slot = lambda n, *k: E('s', [('metal:define-slot', n)], list(k))
    m1 = E('m', [('metal:define-macro', 'm1')], [probe(), slot('a', probe()), probe()])
    if how == 'extend':
        m2 = E('m', [('metal:define-macro', 'm2'), ('metal:extend-macro', a)], [
            E('f', [('metal:fill-slot', 'a')], [probe(), slot('b', probe())])])
    else:
        m2 = E('m', [('metal:define-macro', 'm2')], [
            probe(), E('u', [('metal:use-macro', a)], [E('f', [('metal:fill-slot', 'a')], [probe(), slot('a', probe())])]), probe()])
    fill = E('f', [('metal:fill-slot', 'b' if how == 'extend' else 'a')], [probe()] + (
        [E('u', [('metal:use-macro', a)], [E('f', [('metal:fill-slot', 'a')], [probe()])]), probe()] if how == 'fill' else []))
    for xml in (False, True):
        pg = [E('pg', (), [probe(), E('u', [('metal:use-macro', b)], [fill]), probe(),
                           E('u', [('metal:use-macro', a)]), probe()])]
        macros = {a: ('lib', 'm1'), b: ('lib', 'm2')} if a != b else {a: ('lib', 'm1')}
        if how == 'default':
            macros[a] = DEFAULT
        elif how == 'fail':
            macros[b] = DEFAULT
        try:
            sc = scenario([('lib', [E('lib', (), [m1, m2])]), ('page', pg)], xml, macros=macros)
        except diff.Rejected as e:
            return rejected(e)
        d = diff.check(sc, {}, rec, watch=True)
        if d:
            return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.space(5 if deep else 4, dress.has('def', 'def2', 'rep', 'err', 'onerr', 'loop', 'define', 'use', 'nomacro'),
                    ' with a statement opening a scope', output=False, watch=True),
        dress.fault_space(4 if deep else 3, dress.has('err', 'onerr'), ' with on-error', watch=True, output=False),
        Space('lookups', gen_lookup, judge_lookup,
              '7 ways of defining a variable at each of 4 places (page, macro, slot, filler)'),
        Space('values', gen_values, judge_values,
              '13 kinds of value x 7 forms of definition (or as loop items, all pairs) x 5 places'),
        Space('macro-names', gen_names, judge_names, 'all pairs of 10 spellings of macro expressions x 6 ways of using them'),
        Space('attrs', gen_attrs, judge_attrs, 'ordered sets of <=4 of 8 source attributes'),
        Space('terms', gen_terms(4 if deep else 3), judge_terms,
              'all templates of <=%d of 13 constructors, 4 macro libraries; a fault at every event when an '
              'on-error is present; visible variables compared at every evaluation' % (4 if deep else 3)),
    ]
