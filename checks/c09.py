"""C09: tal:on-error contains a failure anywhere inside and leaves no trace of it."""
from mc import real
from mc.engine import BadExpr

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['failures are ordinary exceptions raised by engine calls, by macro checks or by '
               'malformed structure']
ALPHA = ('err', 'erc', 'txt', 'stx', 'defl', 'defg', 'loop', 'unit', 'name', 'dom', 'att', 'use', 'fill')
PRE = ('use', 'unit', 'loop', 'txt')


def faults(sc, rec, pairs, env=Auto, **kw):
    """Fault-free run, then a fault at every event, then at every pair."""
    opt = dict(kw, watch=True, where=True)
    exp = sc.expect(env(), **opt)
    d = diff.check(sc, env(), rec, **opt)
    if d:
        return d
    for k in range(1, len(points(exp)) + 1):
        d = diff.check(sc, env(), rec, fail_at=(k,), **opt)
        if d:
            return d
        if pairs:
            e2 = sc.expect(env(), fail_at=(k,), **opt)
            for k2 in range(k + 1, len(points(e2)) + 1):
                d = diff.check(sc, env(), rec, fail_at=(k, k2), **opt)
                if d:
                    return d


def points(o):
    return range(o.eng.nevals)


_bases = {}


def base(lib, xml):
    if (lib, xml) not in _bases:
        _bases[lib, xml] = scenario(libs.libnodes(lib), xml)
    return _bases[lib, xml]


def tail():
    """Whatever failed before, this must render as usual."""
    return [E('u', [('metal:use-macro', 'm1')], [E('f', [('metal:fill-slot', 'a')], ['F'])]),
            E('t', [('i18n:translate', '')], [T('u'), E('n', [('i18n:name', 'n')], ['N'])])]


def gen_terms(maxn, pairn):
    def gen():
        for n in range(1, maxn + 1):
            for f in terms.forests(n, ALPHA, 2, False, False):
                k = libs.kinds(f)
                if not k & {'err', 'erc'}:
                    continue
                ls = list(libs.LIBS) if 'use' in k else ['slot']
                for lib in ls:
                    yield f, lib, n <= pairn
    return gen


def judge_terms(case, rec):
    f, lib, pairs = case
    for xml in (False, True):
        try:
            pg = terms.page(f)
            pg[0].kids += tail()
            sc = scenario([('page', pg)], xml, base=base(lib, xml))
        except diff.Rejected as e:
            return rejected(e)
        d = faults(sc, rec, pairs)
        if d:
            return d


# ---- on-error together with every other statement on the same element
KINDS = ['def', 'def2', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl', 'srepl']


def gen_same(maxk):
    def gen():
        for sub in subsets(KINDS, 0, maxk):
            for h in ('h', 'structure hs', 'text h', 'v:error', 'h2'):
                for form in ('', '/', 'tal'):
                    yield sub, h, form
    return gen


def judge_same(case, rec):
    sub, h, form = case
    if {'omit', 'omit0'} & set(sub) and {'repl', 'srepl'} & set(sub):
        return
    class Env(Auto):
        pass
    fixed = {'h': 'H<', 'hs': '<u>H</u>', 'h2': None}
    for x, ch in outcomes(sub, 0):
        fixed[x] = ch[-1] if x[0] == 'r' else ch[0]
    for xml in (False, True):
        if form == 'tal':
            a = [(k.split(':')[1], v) for k, v in attrs_of(sub, 0)] + [('on-error', h)]
            e = E('tal:x', a, [T('x'), E('i', [('tal:content', 'w')])])
        else:
            e = E('p', [('id', 'i&"')] + attrs_of(sub, 0) + [('tal:on-error', h)],
                  [] if form else [T('x'), E('i', [('tal:content', 'w')])], form)
        nodes = [E('o', [('tal:on-error', 'last')], [T('\n'), e, E('z', [('tal:content', 'e:error')])]),
                 E('z', [('tal:content', 'e:error')])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as ex:
            return rejected(ex)
        d = faults(sc, rec, True, env=lambda: Auto(fixed))
        if d:
            return d


# ---- failures other than from expressions
BAD = ['<b>x', '<b>x</i>', 'x</b>', '<p>', '<br>x</br>', '<b><i>x</b></i>']


def gen_native():
    for bad in BAD + ['<u>ok</u>']:
        for mac in ('ok', 'mode', 'missing', 'default'):
            for lim in (1, 2, 100):
                for shape in range(6):
                    for xml in (False, True):
                        yield bad, mac, lim, shape, xml


def judge_native(case, rec):
    bad, mac, lim, shape, xml = case
    libn = [('lib', [E('lib', (), [
        E('m', [('metal:define-macro', 'm1')], [T('A'), E('s', [('metal:define-slot', 'a')], ['B']),
                                               E('u', [('metal:use-macro', 'm2')]), T('C')]),
        E('m', [('metal:define-macro', 'm2')], [T('D'), E('s', [('metal:define-slot', 'a')], ['E']),
                                               E('q', [('tal:content', 'structure s')]), T('F')])])])]
    other = diff.Scenario(libn, not xml)
    call = lambda: E('u', [('metal:use-macro', 'm1')], [E('f', [('metal:fill-slot', 'a')], [E('q', [('tal:content', 'structure s2')])])])
    err = [('tal:on-error', 'h')]
    body = [
        lambda: [E('w', err, [call()])],
        lambda: [E('w', err, [E('t', [('i18n:translate', '')], [T('x'), E('n', [('i18n:name', 'n')], [call()])])])],
        lambda: [E('l', [('tal:repeat', 'y r')], [E('w', err, [call()])])],
        lambda: [E('w', err, [E('d', [('i18n:domain', 'dd'), ('tal:define', 'x d')], [call()])])],
        lambda: [E('w', err, [call(), E('w', err, [call()])])],
        lambda: [E('t', [('i18n:translate', '')], [E('w', err, [call()]), E('n', [('i18n:name', 'n')], ['q'])])],
    ][shape]()
    nodes = [E('page', (), body + [E('u', [('metal:use-macro', 'm2')], [E('f', [('metal:fill-slot', 'a')], ['G'])]),
                                   E('t', [('i18n:translate', '')], ['unit']), E('z', [('tal:content', 'last')])])]
    macros = {'m1': ('lib', 'm1'), 'm2': ('lib', 'm2')}
    try:
        sc = scenario(libn + [('page', nodes)], xml, macros=macros)
    except diff.Rejected as e:
        return rejected(e)
    if mac == 'mode':
        r, p = Seq(sc.rm['m2'], other.rm['m2'], sc.rm['m2']), Seq(sc.im['m2'], other.im['m2'], sc.im['m2'])
        sc.rm['m2'], sc.im['m2'] = r, p
    elif mac == 'missing':
        r, p = Seq(Raise(), sc.rm['m2'], Raise(), sc.rm['m2']), Seq(Raise(), sc.im['m2'], Raise(), sc.im['m2'])
        sc.rm['m2'], sc.im['m2'] = r, p
    elif mac == 'default':
        sc.rm['m2'] = sc.im['m2'] = DEFAULT
    for s2 in ('<u>ok</u>', bad):
        for strict in (1, 0):
            env = Auto(s=Seq('<i>1</i>', bad, '<i>2</i>'), s2=s2)
            d = diff.check(sc, env, rec, watch=True, where=True, limit=lim, strictinsert=strict)
            if d:
                return d


# ---- exceptions of every kind
class Mute(Exception):
    def __str__(self):
        raise ValueError('no text')

    __repr__ = __str__


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Same(Exception):
    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


class Slotted(Exception):
    def __init__(self, *a):
        Exception.__init__(self)
        self.args = ()


def unicode_error(msg):
    return UnicodeDecodeError('utf-8', b'x', 0, 1, msg)


EXC = [StopIteration, StopAsyncIteration, IndexError, KeyError, LookupError, AttributeError, TypeError, ValueError, NameError,
       AssertionError, RuntimeError, RecursionError, NotImplementedError, OSError, EOFError, ZeroDivisionError, MemoryError,
       ImportError, Warning, Exception, unicode_error, Mute, Falsy, Same, Slotted, BadExpr, real.TALError, real.METALError,
       real.I18NError, lambda m: ExceptionGroup(m, [ValueError(m)])]
INNER = ['def', 'cond', 'rep', 'omit', 'att', 'cont', 'scont', 'repl', 'err']
FRAMES = ['', 'loop', 'unit', 'name', 'iat', 'use', 'fill', 'err']


def gen_kinds():
    for x in range(len(EXC)):
        for k in INNER:
            for fr in FRAMES:
                for h in ('h', 'structure hs', 'v:error'):
                    yield x, k, fr, h


def judge_kinds(case, rec):
    x, k, fr, h = case
    if EXC[x] in (Mute,) and h == 'v:error':
        return
    env = {'h': 'H', 'hs': '<u>H</u>', 'h2': 'H2', 'r': '12', 'w': 'W'}
    for e, ch in outcomes([k], 0):
        env[e] = ch[-1] if e[0] == 'r' else ch[0]
    for xml in (False, True):
        e = [E('p', [('id', 'i')] + attrs_of([k], 0), [T('x'), E('i', [('tal:content', 'w')])])]
        if fr == 'loop':
            e = [E('l', [('tal:repeat', 'y r')], e)]
        elif fr == 'unit':
            e = [E('t', [('i18n:translate', '')], [T('u')] + e)]
        elif fr == 'name':
            e = [E('t', [('i18n:translate', '')], [T('u'), E('n', [('i18n:name', 'n')], e)])]
        elif fr == 'iat':
            e = [E('t', [('title', 'tt'), ('i18n:attributes', 'title')], e)]
        elif fr == 'use':
            e = [E('m', [('metal:define-macro', 'm1')], e), E('u', [('metal:use-macro', 'm1')])]
        elif fr == 'fill':
            e = [E('m', [('metal:define-macro', 'm1')], [T('A'), E('s', [('metal:define-slot', 'a')], ['B'])]),
                 E('u', [('metal:use-macro', 'm1')], [E('f', [('metal:fill-slot', 'a')], e)])]
        elif fr == 'err':
            e = [E('w', [('tal:on-error', 'v:error')], e)]
        nodes = [E('o', (), [E('w', [('tal:on-error', h)], [T('\n')] + e), E('z', [('tal:content', 'e:error')]),
                             E('t', [('i18n:translate', '')], [T('u'), E('n', [('i18n:name', 'n')], ['N'])])])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as ex:
            return rejected(ex)
        d = faults(sc, rec, False, env=lambda: env, fault=EXC[x])
        if d:
            return d


# ---- what the bundled engine tells the handler
STATE = {'def': 'tal:define="x boom"', 'cond': 'tal:condition="boom"', 'rep': 'tal:repeat="x boom"', 'omit': 'tal:omit-tag="boom"', 'att': 'tal:attributes="k boom"',
         'cont': 'tal:content="boom"', 'scont': 'tal:content="structure boom"', 'repl': 'tal:replace="boom"', 'data': 'i18n:translate="i" i18n:data="boom"',
         'use': 'metal:use-macro="boom"'}


class Told(real.DummyEngine):
    def __init__(self, excs):
        real.DummyEngine.__init__(self)
        self.excs = list(excs)
        self.raised = []
        self.seen = []

    def boom(self):
        self.raised.append(self.excs[min(len(self.raised), len(self.excs) - 1)]('msg'))
        raise self.raised[-1]

    def evaluate(self, expr):
        if expr == '$boom$':
            self.boom()
        if expr[:5] in ('$look', '$then'):
            i = self.getValue('error')
            self.seen.append((i and i.type, i and i.value))
            if expr[:5] == '$then':
                self.boom()
            return 'L'
        return real.DummyEngine.evaluate(self, expr)

    def evaluateMacro(self, expr):
        self.boom()


def gen_told():
    for x in range(len(EXC)):
        for k in sorted(STATE):
            for y in range(len(EXC)):
                for shape in range(3):
                    if shape or y == 0:
                        yield x, k, y, shape


def judge_told(case, rec):
    x, k, y, shape = case
    q = '<q %s>k</q>' % STATE[k]
    src, text, n = [
        ('<a><b tal:on-error="look"><i>t</i>%s</b><c tal:condition="look">z</c></a>', '<a><b>L</b><c>z</c></a>', 1),
        ('<a><o tal:on-error="look">t<b tal:on-error="then">%s</b></o><c tal:condition="look">z</c></a>', '<a><o>L</o><c>z</c></a>', 2),
        ('<a><b tal:on-error="look">%s</b><b tal:on-error="structure look">t<s tal:content="boom"/></b><c tal:condition="look">z</c></a>', '<a><b>L</b><b>L</b><c>z</c></a>', 2)][shape]
    src = src % q
    eng = Told([EXC[x], EXC[y]])
    prog = real.compile_source(src, False, 'page', eng)
    o = diff.run(lambda: real.render(*prog, eng), eng_of(eng))
    exp = [(e.__class__, e) for e in eng.raised] + [(None, None)]
    rec.execution([src, x, y], final=text)
    same = len(exp) == len(eng.seen) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(exp, eng.seen))
    if o.error or o.text != text or not same or len(eng.raised) != n:
        return {'problem': 'what handlers are told', 'source': src, 'exceptions': [e.__class__.__name__ for e in eng.raised], 'expected': text,
                'actual': o.error or o.text, 'told': [getattr(t, '__name__', None) for t, _ in eng.seen], 'the exception itself': same}


class eng_of:
    """what diff.run asks an engine for"""
    trace, scopes = (), ()

    def __init__(self, eng):
        pass


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.fault_space(5 if deep else 4, dress.has('err', 'onerr'), ' with on-error', watch=True, where=True, pairs=True),
        Space('same-element', gen_same(4 if deep else 3), judge_same,
              'on-error with every subset of <=%d statements x 5 handlers x 3 element forms; a fault at '
              'every event and at every pair of events' % (4 if deep else 3)),
        Space('exceptions', gen_kinds, judge_kinds,
              '%d kinds of exception at every event of 9 statements x 8 surroundings x 3 handlers' % len(EXC)),
        Space('bundled', gen_told, judge_told,
              'bundled engine: every two kinds of exception in 10 statements, 3 compositions of on-error'),
        Space('native-failures', gen_native, judge_native,
              'malformed structure x macro mode/lookup/default x nesting limits x 6 shapes'),
        Space('terms', gen_terms(4 if deep else 3, 3), judge_terms,
              'all templates of <=%d of 13 constructors containing on-error, 4 macro libraries; a fault at every '
              'event, pairs of faults for <=%d' % (4 if deep else 3, 3)),
    ]
