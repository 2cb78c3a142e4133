"""C13: message extraction finds every static message rendering looks up."""
import warnings

from mc import real
from mc.engine import Engine
from zope.tal.talgettext import POEngine, POTALInterpreter

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

warnings.simplefilter('ignore')
ASSUMPTIONS = ['a message whose text depends on an expression, a branch, a loop or a macro is not static',
               'every template declares its domain at its root, or none anywhere does',
               'extraction is run as documented: one template at a time with METAL off',
               'messages inside content that tal:content/replace replaces are not claimed']
DYN = '${DYNAMIC_CONTENT}'
ALPHA = ('unit', 'unid', 'unda', 'name', 'dom', 'txt', 'itx', 'iat', 'loop', 'cond', 'omit', 'err', 'use', 'fill', 'el')
VARY = {'use', 'loop', 'cond', 'omit', 'err', 'slot'}

U = ('unit', None, ())
I = ('iat', None, ())
MACROS = {
    'plain': ((('dom', None, (U,)), ('slot', 'a', (U, I))), (('loop', None, (('unid', None, ()),)), ('slot', 'b', (I,))), False),
    'ext': ((('slot', 'a', (U,)), ('cond', None, (('slot', 'b', (I,)),))), (('fill', 'a', (('unda', None, ()),)),), True),
    'use': ((U, ('slot', 'a', ()), ('unit', None, (('name', None, (('slot', 'b', (U,)),)),))),
            (('use', 'm1', (('fill', 'a', (('dom', None, (I,)), ('slot', 'b', (U,)))),)),), False),
}


def static(f, inunit=False):
    for k, _, sub in f:
        if inunit and k in VARY:
            return False
        u = k in ('unit', 'unid', 'unda') or (inunit and k != 'name')
        if not static(sub, u):
            return False
    return True


class Env(dict):
    def __init__(self, cond, items, omit):
        self.c, self.r, self.o = cond, items, omit

    def __missing__(self, k):
        if k[0] == 'z':
            return {'dat': 'D'}
        return {'c': self.c, 'r': self.r, 'o': self.o}.get(k[0], DYN)


def norm(s):
    return ' '.join(s.split())


def extract(prog, file):
    e = POEngine()
    e.file = file
    e.evaluated = []
    POTALInterpreter(prog[0], prog[1], e, stream=real.Out(), metal=False)()
    cat = set()
    defaults = {}
    for dom, msgs in e.catalog.items():
        for m, locs in msgs.items():
            d = str(m) if m.default is None else m.default
            defaults.setdefault((dom, str(m)), set()).add(norm(d))
            for f, pos in locs:
                cat.add((dom, str(m), f, pos[0]))
    return cat, defaults


def lookups(sc, file, macros, env, rec):
    eng = Engine(env, macros, translate=lambda *a: 'x')
    real.render(sc.prog[file][0], sc.prog[file][1], eng)
    rec.execution(eng.trace)
    return {(d, m, f, p[0]) for d, m, _, f, p in eng.lookups}, [((d, m), norm(x)) for d, m, x, _, _ in eng.lookups]


def judge_sc(sc, files, rec, vary=True):
    cat, defaults = set(), {}
    for f in files:
        try:
            c, d = extract(sc.prog[f], f)
        except Exception as e:
            return {'problem': 'extraction failed: %r' % e, 'source': sc.src}
        cat |= c
        for k, v in d.items():
            defaults.setdefault(k, set()).update(v)
    seen = set()
    used = {}
    default = dict.fromkeys(sc.im, DEFAULT)
    runs = [(sc.page, sc.im, Env(1, 'a', 0)), (sc.page, default, Env(1, 'a', 0))]
    runs += [(f, sc.im, Env(1, 'a', 0)) for f in files if f != sc.page]
    runs += [(f, default, Env(1, 'a', 0)) for f in files if f != sc.page]
    if vary:
        runs += [(sc.page, sc.im, Env(0, 'a', 0)), (sc.page, sc.im, Env(1, '', 1)), (sc.page, sc.im, Env(1, 'ab', 1))]
    for f, macros, env in runs:
        got, ds = lookups(sc, f, macros, env, rec)
        if not got <= cat:
            return {'problem': 'looked up but not extracted', 'messages': sorted(got - cat, key=repr),
                    'extracted': sorted(cat, key=repr), 'source': sc.src}
        for k, d in ds:
            used.setdefault(k, set()).add(d)
        seen |= got
    for k, d in used.items():
        # if the same id occurs with several defaults any of them is recorded
        if not defaults[k] <= d:
            return {'problem': 'different default text', 'message': k, 'looked up with': d,
                    'extracted': sorted(defaults[k]), 'source': sc.src}
    if seen != cat:
        return {'problem': 'extracted but never looked up', 'messages': sorted(cat - seen, key=repr), 'source': sc.src}


_bases = {}


def base(name, xml, dom):
    if (name, xml, dom) not in _bases:
        f1, f2, ext = MACROS[name]
        _bases[name, xml, dom] = scenario([('lib', [E('lib', [('i18n:domain', 'L')] if dom else (), [
            T('\n'), terms.macro('m1', f1, None, 'A'), T('\n'),
            terms.macro('m2', f2, 'm1' if ext else None, 'B')])])], xml)
    return _bases[name, xml, dom]


def gen_terms(maxn):
    def gen():
        for n in range(1, maxn + 1):
            for f in terms.forests(n, ALPHA, 2, False, False):
                if not static(f):
                    continue
                k = libs.kinds(f)
                for lib in (MACROS if 'use' in k else ['plain']):
                    for dom in (1, 0):
                        if not dom and 'use' in k and 'dom' in k:
                            continue
                        if not dom and lib != 'plain':
                            continue
                        yield f, lib, dom
    return gen


def judge_terms(case, rec):
    f, lib, dom = case
    for xml in (False, True):
        pg = terms.page(f)
        if dom:
            pg[0].attrs.append(('i18n:domain', 'P'))
        try:
            b = base(lib, xml, dom)
            sc = scenario([('page', pg)], xml, base=b)
        except diff.Rejected as e:
            return rejected(e)
        files = ['lib', 'page'] if 'use' in libs.kinds(f) else ['page']
        d = judge_sc(sc, files, rec)
        if d:
            return d


# ---- the text of messages, attributes, several messages with the same id
PARTS = ['x', ' ', '\n ', '&amp;', '&nbsp;', '<b>z</b>', '${n}', '<!-- c -->', 'NAME', 'TAL', 'É', 'ATT', 'UNIT']


def part(p):
    if p == 'NAME':
        return E('b', [('i18n:name', 'n')], [' v  w '])
    if p == 'TAL':
        return E('b', [('tal:content', 't')], ['v'])
    if p == 'ATT':
        return E('b', [('title', 'a  b'), ('i18n:attributes', 'title')], ['v'])
    if p == 'UNIT':
        return E('b', [('i18n:name', 'u'), ('i18n:translate', '')], [' in  ner'])
    return T(p)


def gen_text():
    for k in range(0, 4):
        for ps in itertools.product(PARTS, repeat=k):
            for tag in ('p', 'pre'):
                for mid in ('', 'x', 'a-b'):
                    yield ps, tag, mid


def judge_text(case, rec):
    ps, tag, mid = case
    for xml in (False, True):
        if xml and '&nbsp;' in ps:
            continue
        nodes = [E('div', [('i18n:domain', 'P')], [
            T('\n'), E(tag, [('i18n:translate', mid)], [part(p) for p in ps]), T('\n'),
            E('q', [('i18n:translate', 'x')], ['other']), T('\n'), E('q', [('i18n:translate', '')], ['x'])])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as e:
            return rejected(e)
        d = judge_sc(sc, ['page'], rec, vary=False)
        if d:
            return d


ATT = [(), ('title', 't  1'), ('alt', 'a&1'), ('lang', 'x')]
XL = ['', 'title', 'title mid', 'alt;title', 'alt m2;title', 'lang; alt', 'title mid; alt m3;lang']


def gen_attr():
    for n in range(1, 4):
        for at in itertools.permutations(ATT[1:], n):
            for xl in XL[1:]:
                for dyn in ('', 'title t', 'alt t', 'cite t'):
                    for st in ('', 'tal:condition', 'tal:repeat', 'tal:omit-tag', 'tal:content', 'tal:replace',
                               'i18n:translate', 'tal:on-error'):
                        yield at, xl, dyn, st


def judge_attr(case, rec):
    at, xl, dyn, st = case
    names = {p.split()[0] for p in xl.split(';')}
    if not names <= {k for k, _ in at}:
        return
    for p in xl.split(';'):
        if len(p.split()) == 2 and dyn.startswith(p.split()[0]):
            return
    for xml in (False, True):
        a = list(at) + [('i18n:attributes', xl)]
        if dyn:
            a.append(('tal:attributes', dyn))
        if st:
            a.append((st, {'tal:condition': 'c', 'tal:repeat': 'y r', 'tal:omit-tag': 'o', 'i18n:translate': ''}.get(st, 't')))
        try:
            sc = scenario([E('div', [('i18n:domain', 'P')], [E('p', a, ['k  l'])])], xml)
        except diff.Rejected as e:
            return rejected(e)
        d = judge_sc(sc, ['page'], rec)
        if d:
            return d


# ---- messages and domains that are nearly the same
DOMS = [None, 'p', 'P', 'pp', 'default', 'a.b', 'a-b']
IDS = ['', 'x', 'X', 'x-y', 'x_y', 'x.', 'None', '0']
TEXTS = ['x', 'X', 'x  y', 'x y', '0']
HOWS = ['unit', 'attr', 'content']


def gen_near():
    units = [(d, i, t, h) for d in DOMS for i in IDS for t in TEXTS for h in HOWS[:2] if i == '' or t in ('x', 'X')]
    for a in units:
        for b in units:
            yield a, b


def judge_near(case, rec):
    def mk(d, i, t, h):
        dom = [('i18n:domain', d)] if d else []
        if h == 'unit':
            return E('p', dom + [('i18n:translate', i)], [t])
        return E('p', dom + [('title', t), ('i18n:attributes', 'title ' + i if i else 'title')], ['k'])
    a, b = case
    for top in (0, 1):
        nodes = [E('div', [('i18n:domain', 'T')] if top else (), [T('\n'), mk(*a), T('\n'), mk(*b), T('\n'), mk(*a)])]
        try:
            sc = scenario(nodes, False)
        except diff.Rejected as e:
            return rejected(e)
        d = judge_sc(sc, ['page'], rec, vary=False) or judge_warnings(sc, rec)
        if d:
            return d


def judge_warnings(sc, rec):
    """One warning for every message whose default is not that of the first one of that id."""
    eng = Engine(Env(1, 'a', 0), sc.im, translate=lambda *a: 'x')
    real.render(sc.prog[sc.page][0], sc.prog[sc.page][1], eng)
    first, exp = {}, []
    for d, m, x, f, p in eng.lookups:
        x = m if x is None else norm(x)
        if first.setdefault((d, m), x) != x:
            exp.append((m, p[0]))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        extract(sc.prog[sc.page], sc.page)
    got = [str(w.message) for w in ws]
    rec.execution([('warnings', len(exp))], final=str(sc.src))
    if len(got) != len(exp) or any(m not in g or '(%d,' % l not in g for (m, l), g in zip(exp, got)):
        return {'problem': 'warnings about different defaults', 'source': sc.src, 'expected': exp, 'actual': got}


# ---- extraction evaluates nothing
class Strict(POEngine):
    """An extraction engine whose expressions must never be looked at."""


CODE = ['raise SystemExit(3)', 'open("/nonexistent/x")', 'x', '1/0', 'MARK.append(1)']


def gen_inert():
    for c in CODE:
        for shape in range(8):
            for xml in (False, True):
                if not (xml and shape == 0):
                    yield c, shape, xml


def judge_inert(case, rec):
    c, shape, xml = case
    q = 'python: ' + c
    u = E('q', [('i18n:translate', '')], ['msg'])
    e = [lambda: E('script', [('type', 'text/server-python')], [T(c)]),
         lambda: E('p', [('tal:define', 'x ' + q)], [u]),
         lambda: E('p', [('tal:condition', q)], [u]),
         lambda: E('p', [('tal:repeat', 'x ' + q)], [u]),
         lambda: E('p', [('tal:attributes', 'title ' + q), ('tal:omit-tag', q)], [u]),
         lambda: E('p', [('i18n:translate', 'msg'), ('i18n:data', q)], ['msg']),
         lambda: E('p', [('tal:on-error', q)], [u]),
         lambda: E('p', [('metal:use-macro', q)], [E('z', [('metal:fill-slot', 'a')], [u])])][shape]()
    from mc import ast
    nodes = [E('div', (), [e, E('q', [('i18n:translate', '')], ['msg'])])]
    src = ast.to_source(ast.xml_doc(nodes) if xml else nodes)
    del MARK[:]
    import builtins
    builtins.MARK = MARK
    try:
        prog = real.compile_source(src, xml, 'page', real.DummyEngine())
        cat, _ = extract(prog, 'page')
    except BaseException as ex:
        return {'problem': 'extraction failed: %r' % ex, 'source': src}
    finally:
        del builtins.MARK
    rec.execution([('extract', shape)], final=src)
    if MARK:
        return {'problem': 'extraction executed template code', 'source': src}
    if {m for _, m, _, _ in cat} != {'msg'}:
        return {'problem': 'wrong messages', 'messages': sorted(cat), 'source': src}


MARK = []


# ---- dressed elements
def static_dress(fs):
    s = {x for _, x in fs}
    if 'unit' in s and s & {'cond', 'rep', 'omit', 'err', 'macro', 'slot', 'fill', 'fs', 'use', 'ext', 'repl', 'srepl'}:
        return False
    if s & dress.CONTENT and s & {'infill', 'unit'}:
        return False
    if s & {'name', 'nametr', 'nameid'} and s & {'cond', 'rep'}:
        return False
    if s & {'scr', 'script'} and (s & {'unit'} or any(k == 'i' for k, _ in fs)):
        return False
    return not s & {'kept'}


def judge_dressed(fs, rec):
    names = {x for _, x in fs}
    for xml in (False, True):
        for dom in (1, 0):
            if not dom and names & {'dom', 'domtr', 'domain'}:
                continue
            b = dress.build(fs, xml)
            if b is None:
                continue
            tpls = b[0]
            if dom:
                tpls[0][1][0].attrs.append(('i18n:domain', 'P'))
            try:
                sc = scenario(tpls, xml)
            except dress.Reject:
                continue
            except diff.Rejected as e:
                return rejected(e)
            sc.rm['MD'] = sc.im['MD'] = DEFAULT
            d = judge_sc(sc, ['page'], rec)
            if d:
                d['features'] = repr(fs)
                return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('dressed', lambda: dress.combos(0, 4 if deep else 3, static_dress), judge_dressed, dress.WHAT % (4 if deep else 3, ' with static messages')),
        Space('near', gen_near, judge_near, 'pairs of messages out of 7 domains x 8 ids x 5 texts x unit/attribute'),
        Space('inert', gen_inert, judge_inert, '5 expressions with effects x 8 statements'),
        Space('attributes', gen_attr, judge_attr, 'ordered sets of <=3 static attributes x 6 i18n:attributes x 4 '
              'tal:attributes x 8 further statements'),
        Space('message-text', gen_text, judge_text, 'units of <=3 of 13 parts x tag x id, next to messages with the same id'),
        Space('terms', gen_terms(4 if deep else 3), judge_terms,
              'all templates of <=%d of 15 constructors with static messages, 3 macro libraries; every branch rendered' % (4 if deep else 3)),
    ]
