"""C11: expanding macros only yields a source template that renders the same."""
from mc import real
from mc.engine import Engine

from . import dress, terms
from . import c10
from .c10 import canonical, has_use, lib, names, uses
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['the expansion is rendered again only for templates without macro extension, translation units and i18n:name in which no '
               'macro defines a slot twice', 'structure values and macros as in the other checks']
MAC = ('el', 'slot', 'loop', 'use', 'fill', 'fs', 'wrap')
MAC1 = ('el', 'slot', 'loop', 'txt', 'err')
PAGE = ('el', 'loop', 'use', 'fill', 'wrap')
STMT = ('use', 'fill', 'txt', 'stx', 'att', 'tal', 'defl', 'loop', 'cond', 'omit', 'err', 'iat')


def events(trace, macro=False):
    return [e for e in trace if (e[0] == 'macro') == macro]


def expand(sc, rec):
    """The expansion is the one the model gives, evaluating macros only."""
    exp = sc.expect(Auto(), tal=0)
    act = sc.actual(Auto(), tal=0)
    rec.execution(exp.trace, final=exp.error or exp.text)
    d = diff.mismatch(exp, act)
    # (translation units are translated, so i18n:data, here z, is needed)
    if d is None and any(e[0] not in ('translate', 'code') and e[:2] != ('any', 'z') for e in events(act.trace)):
        d = {'problem': 'expression evaluated while expanding macros', 'calls': events(act.trace)}
    if d:
        return dict(d, source=dict(sc.src), options='tal=0')
    sc.expansion = act.text


def check(sc, rec):
    d = expand(sc, rec)
    if d:
        return d
    text = sc.expansion
    xml = sc.xml
    # the expansion is a template that renders like the original
    orig = sc.actual(Auto())
    try:
        prog = real.compile_source(text, xml, 'page')
    except Exception as e:
        return {'problem': 'expansion does not compile: %s: %s' % (type(e).__name__, e), 'source': dict(sc.src), 'expansion': text}

    def go(**kw):
        eng = Engine(Auto(), sc.im)
        return diff.run(lambda: real.render(*prog, eng, **kw), eng)
    again = go()
    rec.execution(events(orig.trace), final=orig.text)
    if (again.error, again.text) != (orig.error, orig.text) or events(again.trace) != events(orig.trace):
        return {'problem': 'expansion renders differently', 'source': dict(sc.src), 'expansion': text,
                'expected': orig.error or orig.text, 'actual': again.error or again.text}
    # expanding again changes nothing
    twice = go(tal=0)
    rec.traces += 1
    if twice.text != text:
        return {'problem': 'expanding the expansion changes it', 'source': dict(sc.src), 'expected': text, 'actual': twice.error or twice.text}


def slots(f, acc):
    for t in f:
        if t[0] == 'slot':
            acc.append(t[1])
        elif t[0] == 'fs':
            acc.append(t[1][1])
        slots(t[2], acc)
    return acc


def once(f):
    s = slots(f, [])
    return len(s) == len(set(s))


def gen_ext(total):
    """libraries whose second macro extends the first"""
    def gen():
        for f1, f2, kind, room, size in c10.gen_libs(total)():
            if kind == 'ext':
                yield f1, f2, room, size, 'ext'
    return gen


def judge_chain(case, rec):
    return c10.judge_chain(case, rec, expand)


def gen_libs(total):
    def gen():
        for size in range(1, total):
            for s1 in range(0, size + 1):
                s2 = size - s1
                for f1 in terms.forests(s1, ('el', 'slot', 'loop'), 0, True, False):
                    for f2 in terms.forests(s2, MAC, 1, True, False):
                        if s2 > 1 and not has_use(f2):
                            continue
                        if canonical(f1, f2) and once(f1) and once(f2):
                            yield f1, f2, min(total - size, 3), size
    return gen


def judge_libs(case, rec):
    f1, f2, room, size, *kind = case
    for xml in (False, True):
        try:
            base = scenario(lib(f1, f2, kind[0] if kind else 'use', xml), xml)
        except diff.Rejected as e:
            return rejected(e)
        first = not names(f1, []) and not names(f2, [])
        for n in range(1, room + 1):
            for fp in terms.forests(n, PAGE, 2, False, False):
                u = uses(fp, set())
                if not u or (first and not canonical(fp)) or kind and 'm2' not in u:
                    continue
                try:
                    sc = scenario([('page', terms.page(fp))], xml, base=base)
                except diff.Rejected as e:
                    return rejected(e)
                d = (expand if kind else check)(sc, rec)
                if d:
                    return d


M1 = [(('slot', 'a', (('txt', None, ()),)), ('att', None, ())), (('err', None, (('slot', 'a', ()), ('stx', None, ()))),),
      (('loop', None, (('slot', 'a', ()), ('tal', None, ()))),), (('cond', None, (('defl', None, (('slot', 'a', ()), ('omit', None, ()))),)),)]
M2 = [(('use', 'm1', (('fill', 'a', (('slot', 'b', ()), ('att', None, ()))),)),), (('txt', None, ()), ('iat', None, ()))]


def gen_stmts(n):
    def gen():
        for i in range(len(M1)):
            for j in range(len(M2)):
                for k in range(1, n + 1):
                    for fp in terms.forests(k, STMT, 2, False, False):
                        if uses(fp, set()):
                            yield i, j, fp
    return gen


_base = {}


def judge_stmts(case, rec):
    i, j, fp = case
    for xml in (False, True):
        if (i, j, xml) not in _base:
            _base[i, j, xml] = scenario(lib(M1[i], M2[j], 'use', xml), xml)
        try:
            sc = scenario([('page', terms.page(fp))], xml, base=_base[i, j, xml])
        except diff.Rejected as e:
            return rejected(e)
        d = check(sc, rec)
        if d:
            return d


# ---- statements on the using, filling, defining elements themselves
WHERE = ['use', 'fill', 'macro', 'slot', 'inner', 'outer']
SETS = [('def',), ('cond',), ('rep',), ('omit',), ('omit0',), ('att',), ('cont',), ('scont',), ('repl',), ('err',), ('def2',),
        ('def', 'rep', 'att'), ('cond', 'omit', 'cont'), ('err', 'att', 'cont')]


def gen_on():
    for a in [(w, s) for w in WHERE for s in SETS]:
        for b in [None] + [(w, s) for w in WHERE for s in SETS]:
            if b and b[0] <= a[0]:
                continue
            for tags in (('q', 'm'), ('tal:x', 'm'), ('q', 'metal:y'), ('metal:x', 'metal:y')):
                yield a, b, tags


def judge_on(case, rec):
    a, b, tags = case
    st = {w: [] for w in WHERE}
    for n, x in enumerate((a, b)):
        if x:
            st[x[0]] = attrs_of(x[1], n + 1)
    for xml in (False, True):
        lib_ = [('lib', [E('o', (), [E(tags[1], [('metal:define-macro', 'm1')] + st['macro'],
                                       [T('A'), E('s', [('metal:define-slot', 'a')] + st['slot'], ['dflt']), T('B')])])])]
        page = [('page', [E('p', st['outer'], [E(tags[0], [('metal:use-macro', 'm1')] + st['use'],
                                                 [T('C'), E('f', [('metal:fill-slot', 'a')] + st['fill'], [T('F'), E('i', st['inner'], ['in'])])]), T('\n')])])]
        try:
            sc = scenario(lib_ + page, xml)
        except diff.Rejected as e:
            return rejected(e)
        d = check(sc, rec)
        if d:
            return d


# ---- the text of the expressions, which are written back
EXPRS = ['m', 'x/m', 'a "b"', "a 'b'", 'a & b', '&amp;', 'a < b', 'a > b', '"', '&lt;', 'a;b', ' m', 'm ', 'a\nb', 'é', '${x}', "\"'&<>", 'a=b', '&#34;', '/>', '--']


def gen_exprs():
    for x in EXPRS:
        for y in EXPRS:
            for shape in ('use', 'nest', 'ext', 'stmt'):
                yield x, y, shape


def judge_exprs(case, rec):
    x, y, shape = case
    for xml in (False, True):
        mac = lambda n, *kids, **kw: E('m', [('metal:define-macro', n)] + kw.get('a', []), list(kids))
        slot = lambda: E('s', [('metal:define-slot', 'a')], ['d'])
        fill = lambda: E('f', [('metal:fill-slot', 'a')], ['f'])
        if shape == 'nest':
            two = mac('two', E('u', [('metal:use-macro', x)], [fill()]))
        elif shape == 'ext':
            two = mac('two', fill(), a=[('metal:extend-macro', x)])
        elif shape == 'stmt':
            two = mac('two', E('u', [('tal:content', x)], ['t']), E('u', [('tal:attributes', 'title ' + x.replace(';', ';;'))]))
        else:
            two = mac('two', slot())
        lib_ = [('lib', [E('o', (), [mac('one', T('A'), slot())])]), ('lib2', [E('o', (), [two])])]
        page = [('page', [E('p', (), [E('q', [('metal:use-macro', y)], [fill()]), E('q', [('metal:use-macro', x)], [E('i', [('tal:content', y)], ['t'])])])])]
        macros = {x: ('lib', 'one'), y: ('lib2', 'two')}
        if x == y and shape != 'use':
            return
        try:
            sc = scenario(lib_ + page, xml, macros=macros)
        except diff.Rejected as e:
            return rejected(e)
        d = (expand if shape == 'ext' else check)(sc, rec)
        if d:
            return d


def plain(fs):
    return not any(k == 'i' or x in ('unit', 'domain', 'ext', 'scr', 'script') for k, x in fs)


def metal(fs):
    return any(k == 'm' or x in ('inmacro', 'infill', 'nomacro') for k, x in fs)


def judge_dress(fs, rec):
    try:
        for sc, _ in dress.scenarios(fs, i18n=False):
            d = check(sc, rec) if plain(fs) else expand(sc, rec)
            if d:
                return d
    except diff.Rejected as e:
        return rejected(e)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('dressed', lambda: dress.combos(1, 5 if deep else 4, metal), judge_dress,
              dress.WHAT % (5 if deep else 4, ' with a METAL role (with I18N or extension: one expansion only)')),
        Space('expressions', gen_exprs, judge_exprs, 'every two of %d expression texts naming macros x 4 compositions' % len(EXPRS)),
        Space('on-elements', gen_on, judge_on, '14 statement sets on one or two of 6 elements of a composition x 4 tag kinds'),
        Space('extension', gen_ext(6 if deep else 5), judge_libs, 'as libraries, the second macro extending the first'),
        Space('chains', c10.gen_chain(3), judge_chain,
              'chains of 3 macros extending or using each other, %d filler sets per step' % len(c10.STEP)),
        Space('chains-4', c10.gen_chain(4, c10.STEP[:8] if deep else c10.STEP[:5]), judge_chain,
              'chains of 4 macros extending or using each other'),
        Space('libraries', gen_libs(6 if deep else 5), judge_libs, 'all two-macro libraries and pages of total size <=%d' % (6 if deep else 5)),
        Space('statements', gen_stmts(4 if deep else 3), judge_stmts, '8 libraries x pages of <=%d constructors out of 12' % (4 if deep else 3)),
    ]
