"""One element dressed with every combination of at most k features.

A feature is a TAL statement, an I18N role, a METAL role, an element form or a
surrounding context.  The element is followed by material that shows whether
anything of it leaked.
"""
from mc.ast import XMLNS
from mc.engine import Vary
from mc.ref import Reject

from .lib import *
from .lib import GROUP, rejected

TAL = ['def', 'def2', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl', 'srepl', 'err', 'scr']
I18N = {
    'tr': [('i18n:translate', '')],
    'id': [('i18n:translate', 'mid')],
    'name': [('i18n:name', 'n')],
    'nametr': [('i18n:name', 'n'), ('i18n:translate', '')],
    'nameid': [('i18n:name', 'n'), ('i18n:translate', 'mid')],
    'dom': [('i18n:domain', 'dd')],
    'domtr': [('i18n:domain', 'dd'), ('i18n:translate', '')],
    'iat': [('title', 'sta tic'), ('i18n:attributes', 'title; alt aid'), ('alt', 'a')],
    'lang': [('i18n:source', 'en'), ('i18n:target', 'de')],
    'data': [('i18n:translate', 'mid'), ('i18n:data', 'z')],
}
UNITS = ('tr', 'id', 'nametr', 'nameid', 'domtr', 'data')
METAL = ['macro', 'slot', 'fill', 'fs', 'use', 'ext']
FORM = ['empty', 'self', 'void', 'pre', 'tal:x', 'metal:x', 'i18n:x', 'ns', 'fns', 'script']
CTX = ['loop', 'cond', 'define', 'onerr', 'unit', 'inmacro', 'infill', 'omitted', 'kept', 'domain', 'nomacro']
FEATURES = [('t', x) for x in TAL] + [('i', x) for x in I18N] + [('m', x) for x in METAL] + \
    [('f', x) for x in FORM] + [('c', x) for x in CTX]
CONTENT = {'cont', 'scont', 'repl', 'srepl'}


def sane(fs):
    t = {x for k, x in fs if k == 't'}
    g = [GROUP.get(x, x) for x in t]
    if len(set(g)) < len(g):
        return False
    for k in 'imfc':
        if sum(1 for q, _ in fs if q == k) > 1:
            return False
    d = {k: x for k, x in fs if k != 't'}
    i, m, f = d.get('i', ''), d.get('m'), d.get('f')
    if t & {'omit', 'omit0'} and t & {'repl', 'srepl'}:
        return False
    if i in ('id', 'nameid', 'data') and t & CONTENT:
        return False
    if i.startswith('name') and m:
        return False
    if f == 'void' and (i in ('tr', 'id', 'nametr', 'nameid', 'domtr', 'data') or t & CONTENT or m in ('use', 'ext')):
        return False
    if f == 'pre' and (i.startswith('name') or i and t & {'omit', 'omit0', 'repl', 'srepl'}):
        return False
    if f in ('tal:x', 'metal:x', 'i18n:x') and i == 'iat':
        return False
    if f == 'script' and (t or i or m in ('use', 'ext')):
        return False            # statements on it are ignored
    if 'scr' in t and f in ('void', 'self', 'empty'):
        return False
    if m in ('use', 'ext') and f in ('empty', 'self'):
        return False
    return True


def combos(lo, hi, need=None):
    for n in range(lo, hi + 1):
        for fs in itertools.combinations(FEATURES, n):
            if sane(fs) and (need is None or need(fs)):
                yield fs


def build(fs, xml, small=False, i18n=True):
    """-> (templates, macros, outs) or None"""
    t = [x for k, x in fs if k == 't']
    d = {k: x for k, x in fs if k != 't'}
    i, m, f, c = d.get('i'), d.get('m'), d.get('f'), d.get('c')
    if xml and f in ('void', 'script'):
        return None
    a = attrs_of(t, 0) + (I18N[i] if i else [])
    if m == 'macro':
        a.insert(0, ('metal:define-macro', 'MX'))
    elif m == 'slot':
        a.append(('metal:define-slot', 'a'))
    elif m == 'fill':
        a.append(('metal:fill-slot', 'a'))
    elif m == 'fs':
        a += [('metal:define-slot', 'b'), ('metal:fill-slot', 'a')]
    elif m == 'use':
        a.append(('metal:use-macro', 'MD'))
    elif m == 'ext':
        a.insert(0, ('metal:define-macro', 'MX'))
        a.append(('metal:extend-macro', 'MF'))
    named = [('i18n:name', 'kn')] if i in UNITS and not CONTENT & set(t) else []
    kids = [T(' k '), E('i', [('tal:content', 'in')] + named, ['z']), T('\n l ')]
    if m == 'ext':
        kids.append(E('f', [('metal:fill-slot', 'a')], [T('F'), E('s', [('metal:define-slot', 'b')], ['G'])]))
    if f and ':' in f:
        ns = f.split(':')[0] + ':'
        e = E(f, [(k[len(ns):] if k.startswith(ns) else k, v) for k, v in a], kids)
    else:
        a = [('id', 'i&')] + a
        if f == 'void':
            e = E('br', a, (), 'v')
        elif f == 'script':
            e = E('script', a + [('type', 'text/server-x')], ['if a < b: c\n </d> '])
        elif f in ('empty', 'self'):
            e = E('b', a, (), '/' if f == 'self' else '')
        else:
            if f == 'ns':
                a = XMLNS + a
            elif f == 'fns':
                a = [('xmlns:y', 'u:y')] + a + [('y:z', '1')]
            e = E('pre' if f == 'pre' else 'b', a, kids)
    nodes = [T('\n  '), e, T('\n')]
    if i and i.startswith('name'):
        nodes = [E('p', [('i18n:translate', '')], [T('x ')] + nodes + [T(' y '), E('b', [('i18n:name', 'o')], ['O'])])]
    base = [E('m', [('metal:define-macro', 'MF')], [T('A'), E('s', [('metal:define-slot', 'a')], ['B']), T('C')])]
    if m == 'macro':
        nodes = nodes + [E('u', [('metal:use-macro', 'MX')], ['junk'])]
    elif m == 'slot':
        nodes = [E('m', [('metal:define-macro', 'MS')], [T('A')] + nodes + [T('C')]), E('u', [('metal:use-macro', 'MS')], ['junk'])]
    elif m == 'fill':
        nodes = base + [E('u', [('metal:use-macro', 'MF')], [T('junk')] + nodes)]
    elif m == 'ext':
        nodes = base + nodes + [E('u', [('metal:use-macro', 'MX')], [T('junk'), E('f', [('metal:fill-slot', 'b')], ['H'])])]
    elif m == 'fs':
        nodes = base + [E('m', [('metal:define-macro', 'M2')], [E('u', [('metal:use-macro', 'MF')], [T('junk')] + nodes)]),
                        E('u', [('metal:use-macro', 'M2')], [E('f', [('metal:fill-slot', 'b')], ['F'])]),
                        E('u', [('metal:use-macro', 'M2')])]
    if c == 'loop':
        nodes = [E('d', [('tal:repeat', 'w r9')], nodes)]
    elif c == 'cond':
        nodes = [E('d', [('tal:condition', 'c9')], nodes)]
    elif c == 'define':
        nodes = [E('d', [('tal:define', 'x0 d9')], nodes)]
    elif c == 'onerr':
        nodes = [E('d', [('tal:on-error', 'h9')], nodes)]
    elif c == 'unit':
        nodes = [E('d', [('i18n:translate', '')], [T('v ')] + nodes + [E('b', [('i18n:name', 'q')], ['Q'])])]
    elif c == 'inmacro':
        nodes = [E('m', [('metal:define-macro', 'MC')], nodes), E('u', [('metal:use-macro', 'MC')], ['junk'])]
    elif c == 'infill':
        nodes = [E('m', [('metal:define-macro', 'MG')], [T('G'), E('s', [('metal:define-slot', 'g')], ['H']), T('I')]),
                 E('u', [('metal:use-macro', 'MG')], [E('f', [('metal:fill-slot', 'g')], nodes)])]
    elif c == 'omitted':
        nodes = [E('d', [('tal:omit-tag', '')], nodes)]
    elif c == 'kept':
        nodes = [E('d', [('tal:content', 't9')], nodes)]
    elif c == 'domain':
        nodes = [E('d', [('i18n:domain', 'DD')], nodes)]
    elif c == 'nomacro':
        nodes = [E('d', [('metal:use-macro', 'MD')], nodes)]
        if m in ('macro', 'slot', 'fs', 'fill', 'ext'):
            return None         # macros inside a use are not defined
    tail = [E('t', [('i18n:translate', '')], [T('u'), E('n', [('i18n:name', 'n')], ['N'])])] if i18n else []
    pg = [E('page', (), nodes + [E('z', [('tal:content', 'e:error')])] + tail + [
        E('end', [('id', 'e'), ('tal:attributes', 'q last')], ['x'])])]
    outs = outcomes(t, 0)
    if small:
        outs = [(x, ch if len(ch) < 3 else ch[:1] + ch[2:3]) for x, ch in outs]
    fixed = {'in': Vary('IN%s'), 'z': {'dat': 'Z'}, 'r9': '12', 'c9': 1, 'd9': 'D9', 'h9': 'H9', 't9': DEFAULT, 'last': 'L'}
    return [('page', pg)], outs, fixed


def scenarios(fs, small=False, i18n=True):
    """yield (scenario, env list)"""
    for xml in (False, True):
        b = build(fs, xml, small, i18n)
        if b is None:
            continue
        tpls, outs, fixed = b
        try:
            sc = scenario(tpls, xml)
        except Reject as e:
            continue
        sc.rm['MD'] = sc.im['MD'] = DEFAULT
        yield sc, [dict(fixed, **e) for e in envs(outs)]


def judge(fs, rec, small=False, **kw):
    try:
        for sc, es in scenarios(fs, small):
            for env in es:
                d = diff.check(sc, env, rec, **kw)
                if d:
                    d['features'] = repr(fs)
                    return d
    except diff.Rejected as e:
        return rejected(e)


# ---- a failure at every event
def judge_faults(fs, rec, pairs=False, **kw):
    """Every outcome as the first one; then a fault at every event (and pair)."""
    try:
        for sc, es in scenarios(fs, True):
            env = es[-1] if any(x == 'rep' for _, x in fs) else es[0]
            opt = dict(kw)
            ok = {k: v for k, v in opt.items() if k not in ('failpos', 'output')}
            n = sc.expect(env, **ok).eng.nevals
            for k in range(0, n + 1):
                d = diff.check(sc, env, rec, fail_at=(k,) if k else (), **opt)
                if d is None and pairs and k:
                    m = sc.expect(env, fail_at=(k,), **ok).eng.nevals
                    for k2 in range(k + 1, m + 1):
                        d = d or diff.check(sc, env, rec, fail_at=(k, k2), **opt)
                if d:
                    d['features'] = repr(fs)
                    return d
    except diff.Rejected as e:
        return rejected(e)


def has(*names):
    s = set(names)
    return lambda fs: any(x in s for _, x in fs)


def count(kind, n):
    return lambda fs: sum(k == kind for k, _ in fs) >= n


WHAT = ('elements with every combination of <=%d features (13 TAL statements, 10 I18N roles, 6 METAL roles, 10 element '
        'forms, 11 contexts)%s, every outcome, HTML and XML')


def space(k, need, which, lo=0, **kw):
    return Space('dressed', lambda: combos(lo, k, need), lambda fs, rec: judge(fs, rec, **kw), WHAT % (k, which))


def fault_space(k, need, which, **kw):
    return Space('dressed-faults', lambda: combos(0, k, need), lambda fs, rec: judge_faults(fs, rec, **kw),
                 WHAT % (k, which) + '; a fault at every event' + (' and pair of events' if kw.get('pairs') else ''))
