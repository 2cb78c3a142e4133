"""C10: macro use, slots and extension expand to the defined composition."""
from . import dress, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['macros are supplied by the engine as compiled by the same version']
MAC = ('el', 'slot', 'loop', 'use', 'fill', 'fs', 'wrap')
PAGE = ('el', 'loop', 'use', 'fill', 'wrap')


def has_use(f):
    return any(t[0] == 'use' or has_use(t[2]) for t in f)


def uses(f, acc):
    for t in f:
        if t[0] == 'use':
            acc.add(t[1])
        uses(t[2], acc)
    return acc


def names(f, acc):
    for t in f:
        if t[0] in ('slot', 'fill'):
            acc.append(t[1])
        elif t[0] == 'fs':
            acc.extend(t[1])
        names(t[2], acc)
    return acc


def canonical(*fs):
    """Slot names are interchangeable: the first one used is 'a'."""
    acc = []
    for f in fs:
        names(f, acc)
        if acc:
            return acc[0] == 'a'
    return True


def gen_libs(total, ext_only=False):
    """(m1, m2 or None, extends, remaining size for the page)"""
    def gen():
        for size in range(1, total):
            for s1 in range(0, size + 1):
                s2 = size - s1
                for f1 in terms.forests(s1, ('el', 'slot', 'loop'), 0, True, False):
                    for kind in ('use', 'ext'):
                        src = (terms.forests(s2, MAC, 1, True, False) if kind == 'use' else
                               terms.fills(s2, MAC, 1, True, False, ()))
                        for f2 in src:
                            if kind == 'use' and s2 and not has_use(f2) and s2 > 1:
                                continue      # such a macro is an m1
                            if canonical(f1, f2):
                                yield f1, f2, kind, min(total - size, 3), size
    return gen


def lib(f1, f2, kind, xml):
    nodes = [terms.macro('m1', f1, None, 'A')]
    nodes.append(terms.macro('m2', f2, 'm1' if kind == 'ext' else None, 'B'))
    return [('lib', [E('lib', (), nodes)])]


def judge_libs(case, rec):
    f1, f2, kind, room, size = case
    for xml in (False, True):
        try:
            base = scenario(lib(f1, f2, kind, xml), xml)
        except diff.Rejected as e:
            return rejected(e)
        first = not names(f1, []) and not names(f2, [])
        for n in range(1, room + 1):
            for fp in terms.forests(n, PAGE, 2, False, False):
                u = uses(fp, set())
                if not u or (first and not canonical(fp)):
                    continue
                if n == 3 and u == {'m1'} and size > 1:
                    continue           # same as with a smaller library
                try:
                    sc = scenario([('page', terms.page(fp))], xml, base=base)
                except diff.Rejected as e:
                    return rejected(e)
                d = diff.check(sc, Auto(), rec, where=True, watch=True)
                if d:
                    return d


# ---- macros and uses in one file, macros used where they are defined
INL = ('el', 'loop', 'use', 'fill')


def gen_inline():
    for s1 in range(0, 3):
        for f1 in terms.forests(s1, ('el', 'slot', 'loop'), 0, True, False):
            for n in range(0, 4 - (s1 > 1)):
                for fp in terms.forests(n, INL, 1, False, False):
                    for place in (0, 1, 2):
                        yield f1, fp, place


def judge_inline(case, rec):
    f1, fp, place = case
    for xml in (False, True):
        m = terms.macro('m1', f1, None, 'A')
        p = terms.page(fp)[0]
        if place == 0:
            p.kids.insert(0, m)
        elif place == 1:
            p.kids.insert(0, E('w', [('tal:repeat', 'q r')], [T('\n'), m]))
        else:
            p.kids.append(m)
        try:
            sc = scenario([p], xml)
        except diff.Rejected as e:
            return rejected(e)
        d = diff.check(sc, Auto(), rec, where=True, watch=True)
        if d:
            return d


# ---- extension chains m1 <- m2 <- m3 (<- m4), used by a page
F = ('fill', 'a', ()), ('fill', 'b', ())
M1 = [(('slot', 'a', ()),), (('slot', 'a', ()), ('slot', 'b', ())), (('slot', 'a', (('slot', 'b', ()),)),),
      (('loop', None, (('slot', 'a', ()),)),), (('slot', 'a', ()), ('slot', 'a', ()))]
STEP = [(), (F[0],), (F[0], F[1]), (('fs', 'aa', ()),), (('fs', 'ab', ()),), (('fs', 'ba', ()),),
        (('fs', 'ab', ()), ('fs', 'ba', ())), (('fs', 'aa', ()), F[1]), (('fill', 'a', (('slot', 'a', ()),)),),
        (('fill', 'a', (('slot', 'b', ()),)),), (('fill', 'a', (('use', 'm1', (F[0],)),)),),
        (('fill', 'b', (('use', 'm1', ()),)),), (('fill', 'a', (('slot', 'a', ()), ('slot', 'b', ()))),)]
TOP = [(), (F[0],), (F[1],), F, (('fill', 'a', (('use', 'm1', (F[0],)),)),),
       (('fill', 'a', (('use', 'm2', (('fill', 'b', ()),)),)),)]


def gen_chain(depth, steps=STEP):
    def gen():
        for f1 in M1:
            for st in itertools.product(steps, repeat=depth - 1):
                for how in ('ext', 'mix', 'mid'):
                    if how != 'mid' or depth > 2:
                        yield f1, st, how
    return gen


def check_chain(sc, rec):
    return diff.check(sc, Auto(), rec, where=True, watch=True)


def judge_chain(case, rec, check=check_chain):
    f1, steps, how = case
    for xml in (False, True):
        ms = [terms.macro('m1', f1, None, 'A')]
        for i, st in enumerate(steps):
            n = 'm%d' % (i + 2)
            below = 'm%d' % (i + 1)
            if i == {'ext': -1, 'mix': len(steps) - 1, 'mid': 0}[how]:
                # this step uses instead of extending
                ms.append(terms.macro(n, (('use', below, st),), None, 'BCDEF'[i]))
            else:
                ms.append(terms.macro(n, st, below, 'BCDEF'[i]))
        try:
            base = scenario([('lib', [E('lib', (), ms)])], xml)
            for top in TOP:
                sc = scenario([('page', terms.page((('use', n, top), ('use', n, ()))))], xml, base=base)
                d = check(sc, rec)
                if d:
                    return d
        except diff.Rejected as e:
            return rejected(e)


# ---- names with white space around them
PAD = ['%s', ' %s', '%s ', '\n%s', '%s\n', '\t%s\t', ' %s\n ', '\r\n%s']
NAMES = ['a', 'A', 'a-B', '_x9', 'slot']


def gen_pads():
    for n in NAMES:
        for p in itertools.product(range(len(PAD)), repeat=3):
            yield n, p


def judge_pads(case, rec):
    n, (p, q, r) = case
    for xml in (False, True):
        libn = [E('lib', (), [E('m', [('metal:define-macro', PAD[p] % n)], [
            T('A'), E('s', [('metal:define-slot', PAD[q] % n)], ['B']), E('s', [('metal:define-slot', 'z')], ['C'])])])]
        pg = [E('pg', (), [E('u', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', PAD[r] % n)], ['F'])])])]
        try:
            sc = scenario([('lib', libn), ('page', pg)], xml, macros={})
        except diff.Rejected as e:
            return rejected(e)
        got = sorted(sc.prog['lib'][1])
        if got != [n]:
            return {'problem': 'names of the macros', 'source': dict(sc.src), 'expected': [n], 'actual': got}
        sc.rm['m'], sc.im['m'] = sc.ref['lib'].macros[n], sc.prog['lib'][1][n]
        d = diff.check(sc, {}, rec)
        if d:
            return d


# ---- macro values: default, failing, varying; statements on the elements involved
ON = [(), ('def',), ('cond',), ('rep',), ('att',), ('omit',), ('err',), ('cont',), ('srepl',)]


def gen_stmts():
    for where in range(5):
        for sub in ON:
            for sub2 in ON:
                for mv in range(3):
                    yield where, sub, sub2, mv


def judge_stmts(case, rec):
    where, sub, sub2, mv = case
    pairs = [(0, 1), (0, 2), (1, 2), (2, 3), (1, 3)][where]
    at = [[], [], [], []]
    at[pairs[0]] = attrs_of(sub, 5)
    at[pairs[1]] = attrs_of(sub2, 6)
    outs = outcomes(sub, 5) + outcomes(sub2, 6) + [('w', ('W',)), ('q', ('Q',)), ('r', ('12',)), ('last', ('L',))]
    for xml in (False, True):
        libn = [E('lib', (), [E('m', [('metal:define-macro', 'm')] + at[0], [
            T('A\n'), E('s', [('metal:define-slot', 'a')] + at[1], [T('B'), E('i', [('tal:content', 'w')])]), T('C')])])]
        pg = [E('pg', (), [T('\n'), E('u', [('metal:use-macro', 'm')] + at[2], [
            T('D'), E('j', [('tal:content', 'q')]),
            E('f', [('metal:fill-slot', 'a')] + at[3], [T('E'), E('i', [('tal:content', 'q')])])]),
            E('u', [('metal:use-macro', 'm')]),
            E('end', [('tal:content', 'last')])])]
        mac = {0: {'m': ('lib', 'm')}, 1: {'m': DEFAULT}, 2: {'m': Seq(DEFAULT, ('lib', 'm'))}}[mv]
        try:
            sc = scenario([('lib', libn), ('page', pg)], xml, macros=mac)
        except diff.Rejected as e:
            return rejected(e)
        d = judge_envs(sc, outs, rec, where=True, watch=True)
        if d:
            return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.space(5 if deep else 4, dress.has('macro', 'slot', 'fill', 'fs', 'use', 'ext', 'inmacro', 'infill', 'nomacro'),
                    ' with a METAL role', where=True, watch=True),
        Space('statements', gen_stmts, judge_stmts,
              'every pair of TAL statements on macro/slot/use/filler elements x macro value (macro, default, varying)'),
        Space('name-spelling', gen_pads, judge_pads, '5 names x 8 kinds of surrounding white space at macro, slot and filler'),
        Space('inline', gen_inline, judge_inline, 'macro of size<=2 defined in the page that uses it, page size<=3'),
        Space('long-chains', gen_chain(5, STEP[:7:2] if not deep else STEP[:8]), judge_chain,
              'extension chains of 5 macros, %d filler sets per step' % (8 if deep else 4)),
        Space('chains-4', gen_chain(4, STEP[:8]), judge_chain, 'extension chains of 4 macros, 8 filler sets per step'),
        Space('chains', gen_chain(4 if deep else 3), judge_chain,
              'extension chains of %d macros, 13 filler sets per step, 5 roots, 6 page filler sets' % (4 if deep else 3)),
        Space('compositions', gen_libs(6 if deep else 5), judge_libs,
              'two macros and a page, total size <= %d constructors' % (6 if deep else 5)),
    ]
