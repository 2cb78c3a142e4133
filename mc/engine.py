"""Instrumented expression engine (ITALExpressionCompiler + ITALExpressionEngine).

One class serves both the implementation under test and the reference model, so
both are confronted with exactly the same answers.  Everything the engine is
asked is recorded in ``trace``.

Expression language:
    v:NAME      value of variable NAME (fails if undefined)
    e:NAME      'yes'/'no': is NAME defined
    anything    looked up in ``env`` -> value, Raise, or Seq (per-call answers)
"""


class Default:
    def __repr__(self):
        return 'DEFAULT'


DEFAULT = Default()


class Raise:
    """env entry: evaluation fails with this exception class."""
    def __init__(self, cls=None):
        self.cls = cls or Boom

    def __repr__(self):
        return 'Raise(%s)' % self.cls.__name__


class Seq:
    """env entry: successive evaluations give successive values (last repeats)."""
    def __init__(self, *vals):
        self.vals = vals

    def __repr__(self):
        return 'Seq%r' % (self.vals,)


class Vary:
    """env entry: every evaluation gives a value of its own."""
    def __init__(self, pattern):
        self.pattern = pattern

    def at(self, i):
        return self.pattern % ('' if i == 0 else '~%d' % i)

    def __repr__(self):
        return 'Vary(%r)' % self.pattern


class Boom(Exception):
    pass


class Undefined(Exception):
    pass


# The model's own failures and the implementation's are the same error.
STRUCT_ERRORS = ('HTMLParseError', 'NestingError', 'EmptyTagError', 'OpenTagError',
                 'ExpatError', 'TALError', 'StructFail')


def errname(exc):
    n = type(exc).__name__
    if n in STRUCT_ERRORS:
        return 'STRUCTURE'
    if n in ('MetalFail', 'METALError'):
        return 'METAL'
    return n


class ErrInfo:
    def __init__(self, err, position):
        self.err = err
        self.position = position

    def __repr__(self):
        return 'ERR:' + errname(self.err)

    __str__ = __repr__


class HarnessError(BaseException):
    """The scenario is outside what the harness provides (never swallowed)."""


class BadExpr(Exception):
    pass


class Compiler:
    """Compiles expressions to tuples; 'bad...' is a syntax error."""

    def getCompilerError(self):
        return BadExpr

    def compile(self, expr):
        if expr.startswith('bad'):
            raise BadExpr('bad expression')
        return ('expr', expr)

    def getContext(self, ns):  # pragma: no cover
        raise NotImplementedError


COMPILER = Compiler()
MISSING = object()


def _key(v):
    """Hashable, comparable rendering of a value for traces."""
    if isinstance(v, dict):
        return ('d',) + tuple(sorted((k, _key(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(_key(x) for x in v)
    if v is None or isinstance(v, (str, int, float, bool)):
        dom = getattr(v, 'domain', None)
        if dom is not None or hasattr(v, 'mapping'):
            return ('msg', str(v), dom)
        return v
    return repr(v)


class Engine:
    """Execution side.

    fail_at: set of 1-based indices of engine calls that fail with Boom.
    watch: record visible variables at every evaluation.
    where: record (source_file, position) at every evaluation.
    """
    position = None
    source_file = None
    fault = Boom
    thrown = None

    def __init__(self, env=None, macros=None, fail_at=(), watch=False,
                 where=False, vars=None, translate=None, max_events=20000):
        self.env = {} if env is None else env
        self.macros = {} if macros is None else macros
        self.fail_at = fail_at
        self.watch = watch
        self.where = where
        self.globals = dict(vars or {})
        self.scopes = [{}]
        self.trace = []
        self.nevals = 0
        self.calls = {}
        self.min_depth = 1
        self.xlate = translate or default_translate
        self.max_events = max_events
        self.depth_bad = False
        self.hide = ()
        self.lookups = []

    # compiler side, needed by structure insertion
    def getCompilerError(self):
        return BadExpr

    def compile(self, expr):
        return ('expr', expr)

    # ---- scopes
    def beginScope(self):
        self.scopes.append({})

    def endScope(self):
        if len(self.scopes) <= 1:
            self.depth_bad = True
            self.trace.append(('scope-underflow',))
        else:
            self.scopes.pop()

    def setLocal(self, name, value):
        self.scopes[-1][name] = value

    def setGlobal(self, name, value):
        self.globals[name] = value

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return self.globals.get(name, MISSING)

    def getValue(self, name, default=None):
        v = self.lookup(name)
        return default if v is MISSING else v

    def visible(self):
        d = dict(self.globals)
        for s in self.scopes:
            d.update(s)
        for k in self.hide:
            d.pop(k, None)
        if d.get('macroname', 1) is None:       # no macro in use
            del d['macroname']
        return _key(d)

    # ---- position
    def setSourceFile(self, f):
        self.source_file = f

    def setPosition(self, p):
        self.position = p

    # ---- evaluation
    def _point(self, *ev):
        """Record an event; every event is a point at which a fault can occur."""
        self.nevals += 1
        if self.watch:
            ev += (self.visible(),)
        if self.where and ev[0] not in ('next', 'translate', 'code'):
            ev += ((self.source_file, self.position),)
        self.trace.append(ev)
        if len(self.trace) > self.max_events:
            raise RuntimeError('too many events')
        if self.nevals in self.fail_at:
            self.thrown = self.fault('fault %d' % self.nevals)
            raise self.thrown

    def _eval(self, kind, cexpr):
        expr = cexpr[1]
        self._point(kind, expr)
        if expr[:2] == 'v:':
            v = self.lookup(expr[2:])
            if v is MISSING:
                raise Undefined(expr)
            return v
        if expr[:2] == 'e:':
            return 'no' if self.lookup(expr[2:]) is MISSING else 'yes'
        try:
            v = self.env[expr]
        except KeyError:
            raise HarnessError('no answer for expression %r' % expr)
        if v.__class__ is Seq:
            i = self.calls.get(expr, 0)
            self.calls[expr] = i + 1
            v = v.vals[min(i, len(v.vals) - 1)]
        elif v.__class__ is Vary:
            i = self.calls.get(expr, 0)
            self.calls[expr] = i + 1
            v = v.at(i)
        if v.__class__ is Raise:
            self.thrown = v.cls(expr)
            raise self.thrown
        return v

    def evaluate(self, expr):
        return self._eval('any', expr)

    def evaluateValue(self, expr):
        return self._eval('value', expr)

    def evaluateBoolean(self, expr):
        v = self._eval('bool', expr)
        return v if v is DEFAULT else bool(v)

    def evaluateText(self, expr):
        v = self._eval('text', expr)
        if v is None or v is DEFAULT or isinstance(v, str):
            return v
        return str(v)

    def evaluateStructure(self, expr):
        return self._eval('struct', expr)

    def evaluateMacro(self, expr):
        name = expr[1]
        self._point('macro', name)
        m = self.macros.get(name, MISSING)
        if m is MISSING:
            raise Undefined('macro ' + name)
        if m.__class__ is Seq:
            i = self.calls.get(name, 0)
            self.calls[name] = i + 1
            m = m.vals[min(i, len(m.vals) - 1)]
        if m.__class__ is Raise:
            self.thrown = m.cls(name)
            raise self.thrown
        return m

    def evaluateCode(self, lang, code):
        self._point('code', lang, code)
        return '{code}'

    def setRepeat(self, name, expr):
        seq = self._eval('seq', expr)
        return Iter(self, name, seq)

    def createErrorInfo(self, exc, position):
        self.trace.append(('error', errname(exc), exc is self.thrown))
        return ErrInfo(exc, position)

    def getDefault(self):
        return DEFAULT

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.lookups.append((domain, str(msgid), default, self.source_file, self.position))
        self._point('translate', _key(msgid), domain, _key(mapping or {}), default)
        return self.xlate(msgid, domain, mapping, default)


def default_translate(msgid, domain, mapping, default):
    s = str(msgid)
    for k, v in (mapping or {}).items():
        s = s.replace('${%s}' % k, '(%s=%s)' % (k, v))
    return '[%s:%s]' % (domain, s)


class Iter:
    def __init__(self, eng, name, seq):
        self.eng, self.name, self.seq, self.i = eng, name, seq, 0

    def __next__(self):
        i = self.i
        self.eng._point('next', self.name)
        if i >= len(self.seq):
            return False
        self.i = i + 1
        self.eng.setLocal(self.name, self.seq[i])
        return True
