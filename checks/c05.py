"""C05: TAL statements run in the defined order, exactly when due."""
from mc.ref import Reject

from . import dress
from .lib import *
from .lib import rejected

ASSUMPTIONS = ['expressions are opaque: the engine is the only place they are evaluated',
               'tal:replace together with a conditional tal:omit-tag is not in the space']
KINDS = ['def', 'def2', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl',
         'srepl', 'err']
SMALL = ['def', 'cond', 'rep', 'omit', 'att', 'cont', 'srepl', 'err']


def ok(sub):
    return not ({'omit', 'omit0'} & set(sub) and {'repl', 'srepl'} & set(sub))


def run(nodes, xml, outs, rec):
    try:
        sc = scenario(nodes, xml)
    except diff.Rejected as e:
        return rejected(e)
    return judge_envs(sc, outs, rec, watch=True)


def gen_single(maxk, permk):
    def gen():
        for sub in subsets(KINDS, 0, maxk):
            if not ok(sub):
                continue
            os = list(orders(sub)) if len(sub) <= permk else [sub, sub[::-1]] + [
                sub[j:] + sub[:j] for j in range(1, len(sub))]
            for o in os:
                for xml in (False, True):
                    yield o, xml
    return gen


def judge_single(case, rec):
    sub, xml = case
    e = E('p', [('id', 'i')] + attrs_of(sub, 0), [T('x'), E('b', [('tal:content', 'k')], ['y'])])
    return run([T('\n '), e, T('z')], xml, outcomes(sub, 0) + [('k', ('K',))], rec)


SHAPES = {
    'nest': lambda a, b: [T('\n '), a([T('x'), b([T('y')]), T('w')]), T('z')],
    'sib': lambda a, b: [a([T('x')]), T('\n '), b([T('y')]), T('z')],
    'deep': lambda a, b: [a([E('u', (), [T('\n'), b([T('y')])])]), T('z')],
}


def gen_pair(maxk):
    def gen():
        ss = [s for s in subsets(SMALL, 0, maxk) if ok(s)]
        for n in range(0, 2 * maxk + 1):
            for a in ss:
                for b in ss:
                    if len(a) + len(b) == n and a and b:
                        for shape in SHAPES:
                            for xml in (False, True):
                                yield a, b, shape, xml
    return gen


def judge_pair(case, rec):
    a, b, shape, xml = case
    # the inner answers change from one evaluation to the next
    outs = outcomes(a, 0)
    for x, ch in outcomes(b, 1):
        outs.append((x, tuple(Seq(ch[j], ch[(j + 1) % len(ch)]) if len(ch) > 1 else ch[j]
                              for j in range(len(ch)))))
    nodes = SHAPES[shape](lambda k: E('p', [('id', 'i')] + attrs_of(a, 0), k),
                          lambda k: E('q', attrs_of(b, 1) + [('id', 'j')], k))
    return run(nodes, xml, outs, rec)


def gen_triple():
    for xml in (False, True):
        for shape in range(4):
            for abc in itertools.product(SMALL, repeat=3):
                yield abc, shape, xml


def judge_triple(case, rec):
    (a, b, c), shape, xml = case
    outs = outcomes([a], 0) + outcomes([b], 1) + outcomes([c], 2)
    A = lambda k: E('p', attrs_of([a], 0), k)
    B = lambda k: E('q', attrs_of([b], 1), k)
    C = lambda k: E('s', attrs_of([c], 2), k)
    t = [T('x')]
    nodes = [[A([B([C(t)])])], [A([B(t), T('\n'), C(t)])], [A([B(t)]), C(t)],
             [A([T('\n '), B([T('\n\t'), C(t), T('\n')])])]][shape]
    return run(nodes + [T('z')], xml, outs, rec)


WS = ['', '\n', ' ', '\n  ', '\n\t', '  \n ', 'x\n ', 'x ', '\n\n ', '\n x ', '\r\n ', '\n<!--c-->',
      '<!--c-->\n ', 'x', '\t']
BEFORE = {
    'none': lambda: [],
    'plain': lambda: [E('i', (), ['k'])],
    'void': lambda: [E('br', (), (), 'v')],
    'cond': lambda: [E('i', [('tal:condition', 'c')], ['k'])],
    'loop': lambda: [E('i', [('tal:repeat', 'z r2')], ['k'])],
    'repl': lambda: [E('i', [('tal:replace', 't')], ['k'])],
    'omit': lambda: [E('i', [('tal:omit-tag', '')], ['k\n'])],
}


def gen_ws():
    for xml in (False, True):
        for w1 in WS:
            if xml and '\r' in w1:
                continue
            for bef in BEFORE:
                if xml and bef == 'void':
                    continue
                for w2 in WS[:9]:
                    for how in range(5):
                        yield w1, bef, w2, how, xml


def judge_ws(case, rec):
    w1, bef, w2, how, xml = case
    a = [[('tal:repeat', 'y r')],
         [('tal:repeat', 'y r'), ('tal:condition', 'c')],
         [('tal:repeat', 'y r'), ('tal:replace', 't')],
         [('tal:repeat', 'y r'), ('tal:omit-tag', ''), ('tal:define', 'v d')],
         [('tal:repeat', 'y r'), ('tal:on-error', 'h')]][how]
    loop = E('p', a, [T('x')])
    nodes = [E('div', (), BEFORE[bef]() + [T(w1), loop, T(w2), E('p', [('tal:repeat', 'y r')], ['q'])]),
             T(w2), E('p', [('tal:repeat', 'y r')], ['q'])]
    outs = [('r', ((), 'a', 'ab')), ('c', (1, 0)), ('r2', ('mn',)), ('t', ('T',)), ('d', ('D',)), ('h', ('H',))]
    return run(nodes, xml, outs, rec)


# ---- what the expressions look like makes no difference
TOK = ['x', ' ', '\n', '\t', ';', ';;', ':', 'not:', 'python:', 'string:', '|', "'", '"', '<', '&', '&amp;', '$', '${n}', 'É', '0',
       'nothing', 'default', 'structure', 'text', 'global', 'local', '(', '/', '-', '.', '\\', '%s', '{0}', '#']


class Answer(dict):
    def __init__(self, d, value):
        dict.__init__(self, d)
        self.value = value

    def __missing__(self, k):
        return self.value


def gen_spell(maxn):
    def gen():
        for n in range(1, maxn + 1):
            for toks in itertools.product(TOK, repeat=n):
                for k in KINDS:
                    if k in ('omit0', 'def2'):
                        continue
                    yield toks, k
    return gen


def judge_spell(case, rec):
    toks, k = case
    text = ''.join(toks)
    a, pat, (first, *_) = STM[k]
    choices = STM[k][2][0][1]
    for pre in ('', 'e'):
        val = pat.replace('{i}', '0').replace(first[0].replace('{i}', '0'), pre + text)
        for k2 in SMALL:
            if not ok((k, k2)) or STM[k2][0] == a or {a, STM[k2][0]} == {'tal:content', 'tal:replace'}:
                continue
            o2 = list(envs(outcomes([k2], 1)))
            for xml in (False, True):
                nodes = [T('\n '), E('p', [('id', 'i'), (a, val)] + attrs_of([k2], 1), [T('x')]), T('z')]
                try:
                    sc = scenario(nodes, xml)
                except Reject:
                    continue
                except diff.Rejected as e:
                    return rejected(e)
                for v in choices:
                    for env in (o2[:1] + o2[-1:]):
                        d = diff.check(sc, Answer(dict(env, q0='Q'), v), rec, watch=True)
                        if d:
                            return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('spellings', gen_spell(2), judge_spell,
              'expressions made of <=2 of %d tokens in each statement next to each other statement' % len(TOK)),
        dress.space(5 if deep else 4, dress.count('t', 2), ' with >=2 statements', watch=True),
        Space('one-element', gen_single(7 if deep else 6, 5 if deep else 4), judge_single,
              'every subset of <=%d of 12 statement variants, every written order (<=%d statements; '
              'rotations and reversal above), every outcome, HTML and XML' % ((7, 5) if deep else (6, 4))),
        Space('loop-whitespace', gen_ws, judge_ws,
              '15x9 surrounding texts x 7 predecessors x 5 loop kinds x 0..2 items'),
        Space('three-elements', gen_triple, judge_triple,
              'one statement on each of three elements, 4 shapes, every outcome'),
        Space('two-elements', gen_pair(3 if deep else 2), judge_pair,
              'every pair of subsets of <=%d statements, 3 shapes, answers changing between '
              'evaluations' % (3 if deep else 2)),
    ]
