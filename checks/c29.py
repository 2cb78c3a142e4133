"""C29: an engine and a compiler need to provide no more than the documented interface."""
import inspect

from mc import real
from mc.ast import XMLNS
from mc.engine import Engine

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['what a repetition returns is advanced with next()', 'compiled expressions do not claim to equal strings',
               'the exception class for compilation errors has an argument']


# ---- the documented operations
class EngineInterface:
    def getDefault(): pass
    def setPosition(position): pass
    def setSourceFile(filename): pass
    def beginScope(): pass
    def endScope(): pass
    def evaluate(compiled_expression): pass
    def evaluateBoolean(compiled_expression): pass
    def evaluateMacro(compiled_expression): pass
    def evaluateStructure(compiled_expression): pass
    def evaluateText(compiled_expression): pass
    def evaluateValue(compiled_expression): pass
    def createErrorInfo(exception, position): pass
    def setGlobal(name, value): pass
    def setLocal(name, value): pass
    def getValue(name, default=None): pass
    def setRepeat(name, compiled_expression): pass
    def translate(msgid, domain=None, mapping=None, default=None): pass
    def evaluateCode(lang, code): pass


class CompilerInterface:
    def getCompilerError(): pass
    def compile(expression): pass
    def getContext(namespace): pass


def operations(cls):
    return {n: inspect.signature(f) for n, f in vars(cls).items() if inspect.isfunction(f)}


ENGINE, COMPILE = operations(EngineInterface), operations(CompilerInterface)


# ---- compiled expressions, defaults, compilers and engines of all kinds
class Plain:
    pass


class Falsy:
    def __bool__(self):
        return False


class Empty:
    """A container without items that cannot be hashed."""
    __hash__ = None

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())


class Distinct:
    """Equals nothing, not even itself."""
    __hash__ = None

    def __eq__(self, other):
        return False


class Tup(tuple):
    """A compiled expression that is a tuple."""


class Equal:
    """Equals everything."""
    __hash__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Text(str):
    """A default that is a string."""


class Zero(int):
    pass


CODES = [Plain, Falsy, Empty, Distinct, Tup]
DEFAULTS = [Plain, Falsy, Empty, Equal, Distinct, Text, Zero]
HOSTS = [Plain, Falsy, Empty, Distinct]


PROBLEMS = []


class Protocol(BaseException):
    """Something undocumented was asked for."""

    def __init__(self, what):
        PROBLEMS.append(what)


class Narrow:
    """Mixed into a host class: provides the given operations only."""

    def __getattribute__(self, name):
        get = object.__getattribute__
        if name[:2] == '__':
            return get(self, name)
        ops = get(self, '__dict__')['ops']
        if name not in ops:
            raise Protocol('%r is not documented' % name)
        inner = get(self, '__dict__')['inner']

        def call(*a, **kw):
            try:
                b = ops[name].bind(*a, **kw)
            except TypeError as e:
                raise Protocol('%s called with %r %r: %s' % (name, a, kw, e))
            b.apply_defaults()
            return getattr(inner, name)(*b.args)
        return call


def narrow(host, ops, inner):
    cls = type('Narrow' + host.__name__, (Narrow, host), {})
    o = cls()
    o.__dict__.update(ops=ops, inner=inner)
    return o


class Failure(Exception):
    pass


class Comp:
    """Compiles to objects that mean nothing to anyone else."""

    def __init__(self, kind):
        self.kind = kind
        self.codes = {}

    def getCompilerError(self):
        return Failure

    def compile(self, expr):
        if not isinstance(expr, str):
            raise Protocol('compile %r' % (expr,))
        if expr.startswith('bad'):
            raise Failure('no good')
        c = self.kind()
        self.codes[id(c)] = c, expr
        return c


class Sealed:
    """Information about an error that is for the engine only."""
    __slots__ = 'inner'

    def __init__(self, info):
        object.__setattr__(self, 'inner', info)

    def __getattribute__(self, name):
        if name[:2] == '__':
            return object.__getattribute__(self, name)
        raise Protocol('%r of the error information' % name)

    def __setattr__(self, name, value):
        raise Protocol('%r of the error information' % name)


class Runs:
    """Answers as the instrumented engine does, for compiled expressions made by a Comp."""

    def __init__(self, eng, codes, default):
        self.eng, self.codes, self.default = eng, codes, default
        for n in ('setPosition', 'setSourceFile', 'beginScope', 'endScope', 'setGlobal', 'getValue', 'translate', 'evaluateCode'):
            setattr(self, n, getattr(eng, n))

    def createErrorInfo(self, exc, position):
        return Sealed(self.eng.createErrorInfo(exc, position))

    def setLocal(self, name, value):
        self.eng.setLocal(name, Sealed.inner.__get__(value) if type(value) is Sealed else value)

    def expr(self, c):
        for codes in self.codes:
            if id(c) in codes and codes[id(c)][0] is c:
                return 'expr', codes[id(c)][1]
        raise Protocol('not a compiled expression: %r' % (c,))

    def getDefault(self):
        return self.default

    def _(kind):
        def call(self, c):
            v = getattr(self.eng, kind)(self.expr(c))
            return self.default if v is DEFAULT else v
        return call

    evaluate, evaluateValue, evaluateBoolean, evaluateText, evaluateStructure, evaluateMacro = map(
        _, ('evaluate', 'evaluateValue', 'evaluateBoolean', 'evaluateText', 'evaluateStructure', 'evaluateMacro'))
    del _

    def setRepeat(self, name, c):
        return Repeat(self.eng.setRepeat(name, self.expr(c)))


class Repeat:
    """Answers with things that are true or false."""

    def __init__(self, it):
        self.it = it

    def __next__(self):
        return 'yes' if next(self.it) else []

    next = __next__


# ---- running
_compiled = {}


def build(sc, kind, host):
    """The scenario's templates compiled by such a compiler."""
    progs, codes = {}, []
    for f, src in sc.src.items():
        key = f, src, sc.xml, kind, host
        if f == 'lib' and key in _compiled:
            progs[f], comp = _compiled[key]
        else:
            comp = Comp(kind)
            progs[f] = real.compile_source(src, sc.xml, f, narrow(host, COMPILE, comp))
            if f == 'lib':
                _compiled[key] = progs[f], comp
        codes.append(comp.codes)
    return progs, codes


def render(sc, env, kind, default, host, chost, fail_at=(), **opts):
    progs, codes = build(sc, kind, chost)
    macros = {}
    for f, (p, ms) in progs.items():
        macros.update(ms)
    for m, v in sc.im.items():
        if v is DEFAULT:
            macros[m] = DEFAULT
    eng = Engine(env, macros, fail_at=fail_at, where=True)
    d = default()
    return diff.run(lambda: real.render(*progs[sc.page], narrow(host, ENGINE, Runs(eng, codes, d)), **opts), eng)


def variants():
    """Every kind of each once, and plain ones of the others."""
    yield Plain, Plain, Plain, Plain
    for k in CODES[1:]:
        yield k, Plain, Plain, Plain
    for d in DEFAULTS[1:]:
        yield Plain, d, Plain, Plain
    for h in HOSTS[1:]:
        yield Plain, Plain, h, Plain
        yield Plain, Plain, Plain, h


ALL = list(variants())


def check(sc, env, rec, which=None, fail_at=(), **opts):
    exp = sc.expect(env, where=True, fail_at=fail_at, **opts)
    for v in which or ALL:
        del PROBLEMS[:]
        try:
            act = render(sc, env, *v, fail_at=fail_at, **opts)
            rec.execution(act.trace, final=act.error or act.text)
            d = diff.mismatch(exp, act)
        except Protocol:
            d = None
        if PROBLEMS:
            d = {'problem': PROBLEMS[0]}
        if d:
            d.update(source=dict(sc.src), data=repr(env), kinds='compiled %s, default %s, engine %s, compiler %s' % tuple(c.__name__ for c in v), options=repr(opts),
                     failing=repr(fail_at))
            return d


def judge_dressed(fs, rec):
    try:
        for sc, es in dress.scenarios(fs):
            for env in es:
                d = check(sc, env, rec)
                if d:
                    d['features'] = repr(fs)
                    return d
    except diff.Rejected as e:
        return rejected(e)


def judge_faults(fs, rec):
    try:
        for sc, es in dress.scenarios(fs, True):
            env = es[-1] if any(x == 'rep' for _, x in fs) else es[0]
            n = sc.expect(env).eng.nevals
            for k in range(1, n + 1):
                d = check(sc, env, rec, ALL[:3], (k,))
                if d:
                    d['features'] = repr(fs)
                    return d
    except diff.Rejected as e:
        return rejected(e)


OPTIONS = [{'strictinsert': 0}, {'metal': 0}, {'tal': 0}, {'tal': 0, 'metal': 0}]
ALPHA = ('txt', 'stx', 'att', 'iat', 'itx', 'mtx', 'defl', 'defg', 'loop', 'cond', 'omit', 'unit', 'unda', 'name', 'err', 'dom', 'use', 'fill')
_bases = {}


def base(lib, xml):
    if (lib, xml) not in _bases:
        _bases[lib, xml] = scenario(libs.libnodes(lib), xml)
    return _bases[lib, xml]


def gen_terms(n):
    def gen():
        for k in range(1, n + 1):
            for f in terms.forests(k, ALPHA, 2, False, False):
                for lib in (list(libs.LIBS) if 'use' in libs.kinds(f) else ['slot']):
                    yield f, lib
    return gen


def judge_terms(case, rec):
    f, lib = case
    for xml in (False, True):
        try:
            sc = scenario([('page', terms.page(f))], xml, base=base(lib, xml))
        except diff.Rejected as e:
            return rejected(e)
        d = check(sc, Auto(), rec)
        for o in OPTIONS:
            d = d or check(sc, Auto(), rec, ALL[:1], **o)
        if d:
            return d


# ---- attribute statements on inserted structure, errors of the compiler
STRUCT = ['<b>x</b>', '<b a="1">x</b><i/>', 'text', '', '<b/>', '<b t="&lt;">&amp;</b>', None, DEFAULT]


def gen_structure():
    for v in STRUCT:
        for attrs in ('', 'a p', 'a p; t q', 'class q'):
            for i18n in ('', 'a', 't'):
                for stm in ('replace', 'content'):
                    for strict in (0, 1):
                        for xml in (False, True):
                            yield v, attrs, i18n, stm, strict, xml


def judge_structure(case, rec):
    v, attrs, i18n, stm, strict, xml = case
    at = [('tal:' + stm, 'structure s')]
    if attrs:
        at.append(('tal:attributes', attrs))
    if i18n:
        at.append(('i18n:attributes', i18n))
    try:
        sc = scenario([('page', [E('d', [('tal:on-error', 'h')], [E('p', at, ['k'])]), E('z', [('tal:content', 'q')])])], xml)
    except diff.Rejected as e:
        return rejected(e)
    for p in ('P', None, DEFAULT):
        d = check(sc, Auto(s=v, p=p, q='<Q>', h='H'), rec, strictinsert=strict)
        if d:
            return d


PLACES = {'tal:content="%s"': 1, 'tal:replace="structure %s"': 1, 'tal:define="a %s"': 1, 'tal:condition="%s"': 1, 'tal:repeat="a %s"': 1, 'tal:omit-tag="%s"': 1,
          'tal:attributes="a %s"': 1, 'tal:on-error="%s"': 1, 'metal:use-macro="%s"': 1, 'metal:define-macro="a" metal:extend-macro="%s"': 1,
          'i18n:translate="x" i18n:data="%s"': 1}


def gen_bad():
    return [(p, ex, xml, h) for p in PLACES for ex in ('bad', 'badly formed') for xml in (False, True) for h in HOSTS]


def judge_bad(case, rec):
    place, ex, xml, host = case
    ns = ''.join(' %s="%s"' % a for a in XMLNS) if xml else ''
    src = '<r%s>\n <e %s>x</e></r>' % (ns, place % ex)
    rec.execution([place], final=case[1:3])
    try:
        real.compile_source(src, xml, 'f', narrow(host, COMPILE, Comp(Plain)))
    except real.TALError as e:
        if (e.lineno, e.offset) == (2, 1) and 'no good' in str(e) and ex in str(e):
            return
        return {'problem': 'a compilation error is reported as', 'actual': str(e), 'source': src}
    except Protocol:
        return {'problem': PROBLEMS[-1], 'source': src}
    except Exception as e:
        return {'problem': 'another failure', 'actual': repr(e), 'source': src}
    return {'problem': 'a compilation error is lost', 'source': src}


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    kinds = '%d kinds of compiled expression, %d of default, %d of engine and compiler' % (len(CODES), len(DEFAULTS), len(HOSTS))
    return [
        Space('structure', gen_structure, judge_structure, '%d values x attribute statements x strictness x HTML and XML; ' % len(STRUCT) + kinds),
        Space('compiler-errors', gen_bad, judge_bad, '%d places of an expression x 2 expressions x HTML and XML x 4 kinds of compiler' % len(PLACES)),
        Space('dressed', lambda: dress.combos(0, 2 + d), judge_dressed, dress.WHAT % (2 + d, '') + '; ' + kinds),
        Space('dressed-faults', lambda: dress.combos(0, 2 + d), judge_faults, dress.WHAT % (2 + d, '') + '; a failure at every evaluation'),
        Space('terms', gen_terms(2 + d), judge_terms, 'all templates of <=%d of %d constructors, 4 macro libraries, HTML and XML; ' % (2 + d, len(ALPHA)) + kinds),
    ]
