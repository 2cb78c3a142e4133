"""C24: macro expansion is guarded by a depth limit, code version and mode."""
from mc import real, ref
from mc.engine import HarnessError

from . import terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['a filler counts as nested where its use is written, not where the slot is']


class Foreign:
    """A macro that must be refused (model side)."""

    class tpl:
        xml = None


def old_version(macro, version='0.1'):
    """The macro as compiled by an incompatible release."""
    cur = real.taldefs.getProgramVersion(macro)
    new = [('version', version) if it == ('version', cur) else it for it in macro]
    if real.taldefs.getProgramVersion(new) == cur:
        raise HarnessError('cannot change the version of a macro')
    return new


def no_version(macro):
    cur = real.taldefs.getProgramVersion(macro)
    return [it for it in macro if it != ('version', cur)]


def compare(sc, env, rec, **kw):
    """Like diff.check, and the output written before a failure."""
    part = {}

    def model():
        eng, opts = sc._engine(env, sc.rm, kw)
        r = ref.Render(sc.ref[sc.page], eng, is_message=real.is_message, **opts)
        part['m'] = r.out
        return diff.run(r.run, eng)

    def impl():
        eng, opts = sc._engine(env, sc.im, kw)
        if 'limit' in opts:
            opts['stackLimit'] = opts.pop('limit')
        out = real.Out()
        part['i'] = out.parts
        p, m = sc.prog[sc.page]
        return diff.run(lambda: real.TALInterpreter(p, m, eng, out, wrap=0, **opts)() or out.getvalue(), eng)
    exp, act = model(), impl()
    if exp.error not in (None, 'Boom', 'Undefined', 'METAL'):
        raise HarnessError('model failed: %s %s %r' % (exp.error, exp.text, sc.src))
    rec.execution(exp.trace, final=exp.error or exp.text)
    d = diff.mismatch(exp, act)
    if d is None and exp.error and ''.join(part['m']) != ''.join(part['i']):
        d = {'problem': 'different output before the failure', 'expected': ''.join(part['m']), 'actual': ''.join(part['i'])}
    if d:
        d.update(source=dict(sc.src), data=repr(env), options=repr(kw))
    return d


# ---- recursion of two macros
ALPHA = ('use', 'fill', 'slot', 'el', 'err')


def has(f, kind):
    return any(t[0] == kind or has(t[2], kind) for t in f)


def gen_rec(n):
    def gen():
        for a in range(1, n + 1):
            for b in range(0, n + 1 - a + 1):
                for f1 in terms.forests(a, ALPHA, 2, True, False):
                    if not has(f1, 'use'):
                        continue
                    for f2 in terms.forests(b, ALPHA, 2, True, False):
                        yield f1, f2
    return gen


def judge_rec(limits):
    def judge(case, rec):
        f1, f2 = case
        page = [E('page', (), [E('u', [('metal:use-macro', 'm1')], [E('f', [('metal:fill-slot', 'a')], ['filled', E('v', [('metal:use-macro', 'm2')])])]),
                               E('w', [('metal:use-macro', 'm2')], []), T('end')])]
        for xml in (False, True):
            try:
                sc = diff.Scenario([('lib', [E('lib', (), [terms.macro('m1', f1, None, 'A'), terms.macro('m2', f2, None, 'B')])]), ('page', page)], xml)
            except diff.Rejected as e:
                return rejected(e)
            for limit in limits:
                d = compare(sc, Auto(), rec, limit=limit)
                if d:
                    return d
    return judge


# ---- recursion through extension
def gen_ext(n):
    def gen():
        def bodies(k, ext):
            if ext:
                return terms.fills(k, ALPHA + ('fs',), 2, True, False, ())
            return terms.forests(k, ALPHA, 2, True, False)
        for e1 in ('m1', 'm2'):
            for e2 in ('m1', 'm2', None):
                for a in range(0, n + 1):
                    for b in range(0, n + 1 - a):
                        for f1 in bodies(a, e1):
                            for f2 in bodies(b, e2):
                                yield f1, e1, f2, e2
    return gen


def judge_ext(case, rec):
    f1, e1, f2, e2 = case
    page = [E('page', (), [E('g', [('tal:on-error', 'h')], [E('u', [('metal:use-macro', 'm1')], [E('f', [('metal:fill-slot', 'a')], ['filled'])])]),
                           E('w', [('metal:use-macro', 'm2')], []), T('end')])]
    for xml in (False, True):
        try:
            sc = diff.Scenario([('lib', [E('lib', (), [terms.macro('m1', f1, e1, 'A'), terms.macro('m2', f2, e2, 'B')])]), ('page', page)], xml)
        except diff.Rejected as e:
            return rejected(e)
        for limit in (1, 2, 3, 5):
            d = compare(sc, Auto(), rec, limit=limit)
            if d:
                return d


# ---- exact depth
SHAPES = {
    'direct': lambda: [E('c', [('tal:condition', 'go')], [E('i', [('metal:use-macro', 'r')])])],
    'slot': lambda: [E('s', [('metal:define-slot', 'a')], [E('c', [('tal:condition', 'go')], [E('i', [('metal:use-macro', 'r')])])])],
    'filler': lambda: [E('s', [('metal:define-slot', 'a')], ['d']),
                       E('b', [('tal:condition', 'go')], [E('i', [('metal:use-macro', 'r')], [E('j', [('metal:fill-slot', 'a')], ['x', E('k', [('metal:define-slot', 'a')])])])])],
    'loop': lambda: [E('c', [('tal:repeat', 'y rr'), ('tal:condition', 'go')], [E('i', [('metal:use-macro', 'r')])])],
    'guarded': lambda: [E('g', [('tal:on-error', 'h')], [E('c', [('tal:condition', 'go')], [E('i', [('metal:use-macro', 'r')])])])],
}


def gen_exact(limits):
    def gen():
        for shape in sorted(SHAPES):
            for xml in (False, True):
                for limit in limits:
                    for n in {0, 1, limit - 3, limit - 2, limit - 1, limit, limit + 1}:
                        if n >= 0:
                            yield shape, xml, limit, n
                for n in (98, 99, 100):
                    yield shape, xml, None, n
    return gen


def judge_exact(case, rec):
    shape, xml, limit, n = case
    nodes = [E('p', (), [T('a'), E('u', [('metal:use-macro', 'r')]), T('b'), E('u', [('metal:use-macro', 'small')]), T('c')])]
    lib = [E('lib', (), [E('m', [('metal:define-macro', 'r')], ['m'] + SHAPES[shape]()), E('q', [('metal:define-macro', 'small')], ['q'])])]
    try:
        sc = diff.Scenario([('lib', lib), ('page', nodes)], xml)
    except diff.Rejected as e:
        return rejected(e)
    env = {'go': Seq(*([1] * n + [0])), 'rr': '1', 'h': 'H'}
    # depth reached is n+1: it must succeed exactly if that is within the limit
    kw = {} if limit is None else {'limit': limit}
    d = compare(sc, env, rec, **kw)
    if d:
        return d
    act = sc.actual(env, **kw)
    fits = n + 1 <= (100 if limit is None else limit)
    if shape != 'guarded' and fits != (act.error is None) and not (limit == 0):
        return {'problem': 'nesting of %d with a limit of %s: %s' % (n + 1, limit, act.error), 'source': dict(sc.src)}


# ---- histories of uses
BADS = ['other', 'old', 'raw', 'gone']


def lib_nodes():
    return [('lib', [E('lib', (), [
        E('m', [('metal:define-macro', 'm1')], ['m', E('s', [('metal:define-slot', 'a')], ['s']), E('br', [('tal:attributes', 'k k')], form='/')]),
        E('m', [('metal:define-macro', 'm2')], ['n', E('s', [('metal:use-macro', 'm1')])]),
        E('m', [('metal:define-macro', 'm3')], ['o', E('s', [('metal:use-macro', 'm2')])]),
        E('m', [('metal:define-macro', 'mf')], ['f', E('i', [('metal:use-macro', 'm1')], [E('s', [('metal:fill-slot', 'a')], [E('z', [('tal:content', 'boom')])])])]),
        E('m', [('metal:define-macro', 'x1'), ('metal:extend-macro', 'm1')], [E('s', [('metal:fill-slot', 'a')], ['x'])]),
    ] + [E('m', [('metal:define-macro', 'e' + b), ('metal:extend-macro', b)], ['e', E('s', [('metal:fill-slot', 'a')], ['y'])]) for b in BADS]
      + [E('m', [('metal:define-macro', 'i' + b)], ['i', E('s', [('metal:use-macro', b)])]) for b in BADS]
      + [E('m', [('metal:define-macro', 'ee' + b), ('metal:extend-macro', 'e' + b)], ['e', E('s', [('metal:fill-slot', 'a')], ['z'])]) for b in BADS])])]


def guard(n):
    return E('g', [('tal:on-error', 'h')], n)


def use(m, *kids):
    return E('u', [('metal:use-macro', m)], kids)


STEPS = {
    'm1': lambda: use('m1', E('f', [('metal:fill-slot', 'a')], ['F'])),
    'm2': lambda: guard([use('m2')]),
    'm3': lambda: guard([use('m3')]),
    'mf': lambda: guard([T('g'), use('mf')]),
    'x1': lambda: guard([use('x1', E('f', [('metal:fill-slot', 'a')], ['X']))]),
    'mode': lambda: guard([T('g'), use('other')]),
    'vers': lambda: guard([T('g'), use('old')]),
    'noversion': lambda: guard([use('raw')]),
    'undef': lambda: guard([use('gone')]),
    'dflt': lambda: use('dd', E('f', [('metal:fill-slot', 'a')], ['own'])),
    'struct': lambda: E('e', [('tal:content', 'structure s')]),
    'loop': lambda: E('l', [('tal:repeat', 'y r'), ('metal:use-macro', 'm1')]),
    'nest': lambda: use('m1', E('f', [('metal:fill-slot', 'a')], [use('m1', E('f', [('metal:fill-slot', 'a')], [use('m1')]))])),
    'empty': lambda: E('br', [('tal:attributes', 'k k; checked c')], form='/'),
}
HENV = {'k': 'K', 'h': 'H', 'boom': Raise(), 's': '<u>s</u><br/>', 'r': '12', 'c': 1}
BASES = {}


def base(xml):
    if xml not in BASES:
        other = diff.Scenario([('foreign', [E('o', [('metal:define-macro', 'other')], ['foreign'])])], not xml)
        b = diff.Scenario(lib_nodes(), xml, base=other)
        BASES[xml] = b, other
    return BASES[xml]


def page(nodes, xml, **kw):
    b, other = base(xml)
    sc = diff.Scenario([('page', nodes)], xml, base=b)
    m1 = sc.im['m1']
    sc.rm.update(old=Foreign, raw=Foreign, nomode=Foreign, dd=DEFAULT)
    sc.im.update(old=old_version(m1), raw=no_version(m1), dd=DEFAULT)
    return sc


def gen_hist(n):
    def gen():
        for k in range(1, n + 1):
            for h in itertools.product(sorted(STEPS), repeat=k):
                yield h
    return gen


def judge_hist(h, rec):
    for xml in (False, True):
        nodes = []
        for s in h:
            nodes += [STEPS[s](), T('\n')]
        nodes = [E('page', (), nodes + [E('br', [('tal:attributes', 'k k; checked c')], form='/'), E('u', [('metal:use-macro', 'm1')])])]
        try:
            sc = page(nodes, xml)
        except diff.Rejected as e:
            return rejected(e)
        for limit in (1, 2, 3, None):
            d = compare(sc, HENV, rec, **({} if limit is None else {'limit': limit}))
            if d:
                return d


# ---- refused before anything is rendered
PLACES = {
    'top': lambda b: [use(b)],
    'filled': lambda b: [use(b, E('f', [('metal:fill-slot', 'a')], ['F']))],
    'filler': lambda b: [use('m1', E('f', [('metal:fill-slot', 'a')], ['F', use(b)]))],
    'loop': lambda b: [E('l', [('tal:repeat', 'y r')], ['L', use(b)])],
    'second': lambda b: [E('l', [('tal:repeat', 'y r'), ('metal:use-macro', 'seq')])],
    'statements': lambda b: [E('l', [('tal:define', 'q k'), ('tal:content', 'k'), ('metal:use-macro', b)], ['x'])],
    'attributes': lambda b: [E('l', [('a', '1'), ('tal:attributes', 'k k'), ('metal:use-macro', b)], ['x'])],
    'after': lambda b: [use('m1'), T('mid'), use(b)],
    'struct': lambda b: [E('e', [('tal:content', 'structure s')]), use(b)],
    'extend': lambda b: [E('l', [('metal:define-macro', 'ext'), ('metal:extend-macro', b)], [E('f', [('metal:fill-slot', 'a')], ['F'])])],
    'extended': lambda b: [use('e' + b, E('f', [('metal:fill-slot', 'a')], ['F']))],
    'twice': lambda b: [use('ee' + b, E('f', [('metal:fill-slot', 'a')], ['F']))],
    'inner': lambda b: [use('i' + b)],
    'omit': lambda b: [E('l', [('tal:omit-tag', ''), ('metal:use-macro', b)], ['x'])],
}


def gen_refused():
    for a in [None] + sorted(PLACES):
        for p in sorted(PLACES):
            for b in BADS:
                for g in (0, 1):
                    yield a, p, b, g


def judge_refused(case, rec):
    a, p, b, g = case
    if a == 'extend' == p:
        return
    for xml in (False, True):
        nodes = [T('before')]
        if a:
            nodes += [guard(PLACES[a](b)), T('\n')]
        n = PLACES[p](b)
        nodes += [guard(n)] if g else n
        try:
            sc = page([E('page', (), nodes + [T('after'), E('br', [('tal:attributes', 'k k')], form='/')])], xml)
        except diff.Rejected as e:
            return rejected(e)
        if b != 'gone':
            sc.rm['seq'], sc.im['seq'] = Seq(sc.rm['m1'], sc.rm[b]), Seq(sc.im['m1'], sc.im[b])
        d = compare(sc, HENV, rec)
        if d:
            return d


# ---- every version but the current one
def versions():
    cur = real.taldefs.TAL_VERSION
    return [v for v in [cur + '0', cur + '.1', cur + 'a', ' ' + cur, cur + ' ', cur[:-1], cur[1:], '0' + cur, cur.split('.')[0], '0', '0.9', '1.0', '1.1', '1.2', '1.3', '1.4', '1.5',
                        '1.7', '1.8', '1.9', '1.10', '2.0', '10.6', '', 'x', '99', None] if v != cur]


def gen_versions():
    for v in versions():
        for p in sorted(PLACES):
            for g in (0, 1):
                yield v, p, g


def judge_versions(case, rec):
    v, p, g = case
    for xml in (False, True):
        n = PLACES[p]('old')
        try:
            sc = page([E('page', (), [T('before')] + ([guard(n)] if g else n) + [T('after'), E('br', [('tal:attributes', 'k k')], form='/')])], xml)
        except diff.Rejected as e:
            return rejected(e)
        sc.im['old'] = old_version(sc.im['m1'], v)
        sc.rm['seq'], sc.im['seq'] = Seq(sc.rm['m1'], sc.rm['old']), Seq(sc.im['m1'], sc.im['old'])
        d = compare(sc, HENV, rec)
        if d:
            return d


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    return [
        Space('exact', gen_exact(range(0, 13 + 12 * d)), judge_exact, 'limits 0..%d and the default, nesting around the limit, 5 shapes, HTML and XML' % (12 + 12 * d)),
        Space('refused', gen_refused, judge_refused, '14 places x 4 unusable macros, alone and after a guarded use in every place, HTML and XML'),
        Space('versions', gen_versions, judge_versions, '%d other versions x 14 places, guarded and not, HTML and XML' % len(versions())),
        Space('recursion', gen_rec(3 + d), judge_rec((0, 1, 2, 3)), 'two mutually recursive macros of <=%d constructors, limits 0..3' % (4 + d)),
        Space('extension', gen_ext(3 + d), judge_ext, 'two macros extending themselves or each other, <=%d constructors, limits 1,2,3,5' % (3 + d)),
        Space('histories', gen_hist(4 + d), judge_hist, 'all histories of <=%d of 14 steps, limits 1,2,3 and the default, HTML and XML' % (4 + d)),
    ]
