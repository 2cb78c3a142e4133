"""Shared enumeration helpers."""
import itertools

from mc import diff
from mc.ast import E, T
from mc.engine import DEFAULT, Raise, Seq
from mc.explore import Space

__all__ = ['E', 'T', 'DEFAULT', 'Raise', 'Seq', 'Space', 'diff', 'itertools', 'envs',
           'subsets', 'stmt', 'STM', 'attrs_of', 'outcomes', 'orders', 'judge_envs', 'scenario']

# statement kind -> (attribute, value pattern, ((expr, choices), ...))
STM = {
    'def': ('tal:define', 'x{i} d{i}', (('d{i}', ('D',)),)),
    'def2': ('tal:define', 'x{i} d{i}; global g v:x{i}; x{i} v:g', (('d{i}', ('D', 'E')),)),
    'cond': ('tal:condition', 'c{i}', (('c{i}', (1, 0)),)),
    'rep': ('tal:repeat', 'y{i} r{i}', (('r{i}', ((), ('1',), ('1', '2'))),)),
    'omit': ('tal:omit-tag', 'o{i}', (('o{i}', (0, 1)),)),
    'omit0': ('tal:omit-tag', '', ()),
    'att': ('tal:attributes', 'id p{i}; b q{i}', (('p{i}', ('P', None)), ('q{i}', ('Q', DEFAULT)))),
    'cont': ('tal:content', 't{i}', (('t{i}', ('C', None, DEFAULT)),)),
    'scont': ('tal:content', 'structure s{i}', (('s{i}', ('<u>C</u>', None, DEFAULT)),)),
    'repl': ('tal:replace', 't{i}', (('t{i}', ('R', None, DEFAULT)),)),
    'srepl': ('tal:replace', 'structure s{i}', (('s{i}', ('<u>R</u>', DEFAULT)),)),
    'err': ('tal:on-error', 'h{i}', (('h{i}', ('H',)),)),
    'tr': ('i18n:translate', '', ()),
    'scr': ('tal:script', 'text/server-x', ()),
}
ORDER = ['def', 'def2', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl',
         'srepl', 'err', 'tr', 'scr']
GROUP = {'def2': 'def', 'omit0': 'omit', 'scont': 'cont', 'repl': 'cont', 'srepl': 'cont'}


def stmt(kind, i):
    a, v, _ = STM[kind]
    return a, v.format(i=i)


def attrs_of(sub, i):
    return [stmt(k, i) for k in sub]


def outcomes(sub, i):
    """[(expr, choices)] of the statements."""
    return [(x.format(i=i), ch) for k in sub for x, ch in STM[k][2]]


def envs(outs):
    """Every assignment of outcomes to expressions, simplest first."""
    names = [x for x, _ in outs]
    for vals in itertools.product(*[c for _, c in outs]):
        yield dict(zip(names, vals))


def subsets(kinds, lo, hi):
    """Subsets of statement kinds with at most one per group."""
    for n in range(lo, hi + 1):
        for c in itertools.combinations(kinds, n):
            g = [GROUP.get(k, k) for k in c]
            if len(set(g)) == len(g):
                yield c


def orders(seq):
    return itertools.permutations(seq)


def scenario(nodes, xml, **kw):
    if not isinstance(nodes[0], tuple):
        nodes = [('page', nodes)]
    return diff.Scenario(nodes, xml, **kw)


def judge_envs(sc, outs, rec, **kw):
    for env in envs(outs):
        d = diff.check(sc, env, rec, **kw)
        if d is not None:
            return d


def rejected(e):
    return {'problem': 'valid template rejected: %s: %s' % (type(e.args[1]).__name__, e.args[1]),
            'source': e.args[0]}
