"""A fixed set of macro libraries (m1, m2) used by several checks.

Each is a pair (m1 forest, m2 forest, m2 extends m1?).
"""
from . import terms
from .lib import E, T

SLOT = (('slot', 'a', ()),)
LIBS = {
    'slot': ((('slot', 'a', (('txt', None, ()),)),),
             (('err', None, (('slot', 'a', ()), ('txt', None, ()))),), False),
    'ext': ((('defl', None, (('slot', 'a', ()), ('slot', 'b', ()))),),
            (('fill', 'b', (('txt', None, ()), ('slot', 'a', ()))),), True),
    'use': ((('loop', None, (('slot', 'a', ()), ('txt', None, ()))),),
            (('use', 'm1', (('fill', 'a', (('slot', 'b', ()), ('att', None, ()))),)),), False),
    'i18n': ((('dom', None, (('unit', None, (('name', None, (('slot', 'a', ()),)), ('txt', None, ()))),)),),
             (('unid', None, (('slot', 'a', ()), ('defg', None, ()))),), False),
}


def libnodes(name, rich=True):
    f1, f2, ext = LIBS[name]
    extra = [('tal:attributes', 'k km')] if rich else []
    return [('lib', [E('lib', (), [
        terms.macro('m1', f1, None, 'A', extra), T('\n'),
        terms.macro('m2', f2, 'm1' if ext else None, 'B')])])]


def kinds(f, acc=None):
    acc = set() if acc is None else acc
    for t in f:
        acc.add(t[0])
        kinds(t[2], acc)
    return acc
