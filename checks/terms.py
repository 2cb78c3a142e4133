"""Bounded template terms.

A *forest* is a tuple of trees; a tree is (kind, arg, forest).  All forests of
an exact size over an alphabet of constructors are enumerated, subject to the
placement rules of the languages (slots only in macros, fillers only in uses,
names only in translation units).
"""
import functools

from mc.ast import E, T
from mc.engine import Vary
from mc.real import Message


class Auto(dict):
    """Answers for every expression, derived from its name."""

    def __missing__(self, k):
        c = k[0]
        v = self[k] = {'r': '12', 'c': 1, 'o': 0, 's': Vary('<u>%s%%s</u>' % k),
                       'z': {'dat': k.upper()}, 'M': Message('msg-' + k, 'mdom', 'def-' + k)}.get(c, Vary(k.upper() + '%s'))
        return v


@functools.lru_cache(None)
def forests(n, alpha, level=0, mac=False, unit=False):
    """All forests with exactly n constructors.

    alpha: tuple of constructor names.  level: macros m1..m<level> may be used.
    mac: inside a macro definition.  unit: inside a translation unit.
    """
    if n == 0:
        return ((),)
    res = []
    for k in range(1, n + 1):
        for t in trees(k, alpha, level, mac, unit):
            for rest in forests(n - k, alpha, level, mac, unit):
                res.append((t,) + rest)
    return tuple(res)


LEAF = ('txt', 'stx', 'att', 'itx', 'isx', 'iat', 'mtx')


@functools.lru_cache(None)
def trees(n, alpha, level, mac, unit):
    res = []
    for kind in alpha:
        if kind in LEAF:
            if n == 1:
                res.append((kind, None, ()))
        elif kind == 'slot':
            if mac:
                for f in forests(n - 1, alpha, level, mac, unit):
                    for s in 'ab':
                        res.append((kind, s, f))
        elif kind == 'use':
            for m in range(1, level + 1):
                for f in fills(n - 1, alpha, level, mac, unit, ()):
                    res.append((kind, 'm%d' % m, f))
        elif kind == 'udef':
            for f in forests(n - 1, alpha, level, mac, unit):
                res.append((kind, None, f))
        elif kind == 'name':
            if unit:
                for f in forests(n - 1, alpha, level, mac, unit):
                    res.append((kind, None, f))
        elif kind in ('unit', 'unid', 'unda'):
            for f in forests(n - 1, alpha, level, mac, True):
                res.append((kind, None, f))
        elif kind in ('fill', 'fs', 'wrap'):
            pass
        else:
            for f in forests(n - 1, alpha, level, mac, unit):
                res.append((kind, None, f))
    return tuple(res)


@functools.lru_cache(None)
def fills(n, alpha, level, mac, unit, used):
    """Fillers of one use; each slot name at most once."""
    if n == 0:
        return ((),)
    res = []
    for k in range(1, n + 1):
        for s in 'ab':
            if s in used:
                continue
            heads = [('fill', s, f) for f in forests(k - 1, alpha, level, mac, unit)]
            if mac and 'fs' in alpha:
                heads += [('fs', s + t, f) for f in forests(k - 1, alpha, level, mac, unit)
                          for t in 'ab']
            if 'wrap' in alpha and k > 1:
                heads += [('wrap', None, (('fill', s, f),))
                          for f in forests(k - 2, alpha, level, mac, unit)]
            for h in heads:
                for rest in fills(n - k, alpha, level, mac, unit, used + (s,)):
                    res.append((h,) + rest)
    return tuple(res)


class Builder:
    """Terms to AST.  Every element gets its own marker text and expressions."""

    def __init__(self, prefix='', nl='\n'):
        self.n = 0
        self.prefix = prefix
        self.nl = nl

    def forest(self, f):
        out = []
        for t in f:
            out.append(T(self.nl))
            out.append(self.tree(t))
        return out

    def tree(self, t):
        kind, arg, sub = t
        self.n += 1
        i = '%s%d' % (self.prefix, self.n)
        kids = [T(i)] + self.forest(sub) + [T('.')]
        a = getattr(self, 'k_' + kind)(i, arg)
        tag = 'e'
        if isinstance(a, tuple):
            tag, a = a
        if kind in ('use', 'wrap'):
            # statements outside fillers must not be executed
            kids.insert(0, E('j', [('tal:content', 'j' + i)], ['junk']))
        return E(tag, a, kids)

    def k_el(self, i, a):
        return [('class', 'c')]

    def k_att(self, i, a):
        return [('class', 'c'), ('tal:attributes', 'k k%s; class l%s' % (i, i))]

    def k_txt(self, i, a):
        return [('tal:content', 't' + i)]

    def k_itx(self, i, a):
        return [('tal:content', 't' + i), ('i18n:translate', '')]

    def k_isx(self, i, a):
        return [('tal:content', 'structure s' + i), ('i18n:translate', '')]

    def k_mtx(self, i, a):
        return [('tal:content', 'M' + i)]

    def k_iat(self, i, a):
        return [('title', 't ' + i), ('alt', 'u'), ('i18n:attributes', 'title;alt mid' + i)]

    def k_stx(self, i, a):
        return [('tal:content', 'structure s' + i)]

    def k_tal(self, i, a):
        return 'tal:x', [('attributes', 'k k' + i)]

    def k_defl(self, i, a):
        return [('tal:define', 'x d' + i)]

    def k_defg(self, i, a):
        return [('tal:define', 'global x d' + i)]

    def k_loop(self, i, a):
        return [('tal:repeat', 'y r' + i)]

    def k_cond(self, i, a):
        return [('tal:condition', 'c' + i)]

    def k_omit(self, i, a):
        return [('tal:omit-tag', 'o' + i)]

    def k_err(self, i, a):
        return [('tal:on-error', 'h' + i)]

    def k_erc(self, i, a):
        return [('tal:on-error', 'v:error'), ('tal:define', 'x d' + i), ('tal:attributes', 'k k' + i)]

    def k_unit(self, i, a):
        return [('i18n:translate', '')]

    def k_unid(self, i, a):
        return [('i18n:translate', 'id' + i)]

    def k_unda(self, i, a):
        return [('i18n:translate', 'id' + i), ('i18n:data', 'z' + i)]

    def k_name(self, i, a):
        return [('i18n:name', 'n' + i)]

    def k_dom(self, i, a):
        return [('i18n:domain', 'dom' + i)]

    def k_slot(self, i, a):
        return [('metal:define-slot', a)]

    def k_use(self, i, a):
        return [('metal:use-macro', a)]

    def k_fill(self, i, a):
        return [('metal:fill-slot', a)]

    def k_fs(self, i, a):
        return [('metal:fill-slot', a[0]), ('metal:define-slot', a[1])]

    def k_wrap(self, i, a):
        return [('tal:attributes', 'k k' + i)]


def macro(name, forest, extends=None, prefix='', extra=()):
    a = [('metal:define-macro', name)]
    if extends:
        a.append(('metal:extend-macro', extends))
    b = Builder(prefix)
    return E('m', a + list(extra), [T(prefix)] + b.forest(forest) + [T(';')])


def page(forest, prefix='p'):
    return [E('page', (), Builder(prefix).forest(forest) + [E('end', [('tal:content', 'last')], ['x'])])]
