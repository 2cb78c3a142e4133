"""C28: output goes to the given stream only, in order, as far as rendering got."""
import io
import sys

from mc import real, ref
from mc.engine import Engine

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['how the document is cut into writes is not claimed', 'a start tag may have been written up to the attribute that failed',
               'the interpreter is not used again after a failure']


class Closed(Exception):
    pass


class Plain:
    """A stream that is nothing but a write method."""

    def __init__(self, fail=0):
        self.parts = []
        self.n = 0
        self.fail = fail
        self.thrown = None
        self.after = 0

    def write(self, s):
        self.n += 1
        if self.thrown is not None:
            self.after += 1
        if self.n == self.fail:
            self.thrown = Closed('write %d' % self.n)
            raise self.thrown
        if not isinstance(s, str):
            raise TypeError('not text: %r' % (s,))
        self.parts.append(s)

    def getvalue(self):
        return ''.join(self.parts)


class Empty(Plain):
    """Has a length, which is the number of things written."""

    def __len__(self):
        return len(self.parts)


class False_(Plain):
    def __bool__(self):
        return False


class Counting(Plain):
    """Like a file: write returns a number."""

    def write(self, s):
        Plain.write(self, s)
        return len(s)


class Listed(list):
    write = list.append

    def getvalue(self):
        return ''.join(self)


class Equal(Plain):
    """Compares equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


class Encoded(io.TextIOWrapper):
    def __init__(self):
        self.raw_ = io.BytesIO()
        io.TextIOWrapper.__init__(self, self.raw_, 'utf-8', newline='')

    def getvalue(self):
        self.flush()
        return self.raw_.getvalue().decode('utf-8')


class Method:
    """write is an attribute of the object."""

    def __init__(self):
        self.parts = []
        self.write = self.parts.append

    def getvalue(self):
        return ''.join(self.parts)


def strio():
    return io.StringIO(newline='')


KINDS = [Plain, Empty, False_, Counting, Listed, Equal, Encoded, Method, strio, None]


class Std:
    """Standard output and error, replaced while something runs."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        self.out = sys.stdout = io.StringIO(newline='')
        self.err = sys.stderr = io.StringIO(newline='')
        return self

    def __exit__(self, *a):
        self.kept = sys.stdout is self.out and sys.stderr is self.err
        sys.stdout, sys.stderr = self.old


def run(sc, env, stream, fail_at=(), **opts):
    """-> (exception or None, engine); rendered to the stream."""
    eng = Engine(env, sc.im, fail_at=fail_at)
    p, m = sc.prog[sc.page]
    opts.setdefault('wrap', 0)
    try:
        if stream is not None:
            opts['stream'] = stream
        real.TALInterpreter(p, m, eng, **opts)()
    except Exception as e:
        return e, eng
    return None, eng


def model(sc, env, fail_at=()):
    """-> (error or None, text up to where rendering got, engine)"""
    eng = Engine(env, sc.rm, fail_at=fail_at)
    r = ref.Render(sc.ref[sc.page], eng, is_message=real.is_message)
    err = None
    try:
        r.run()
    except Exception as e:
        err = e
    return err, ''.join(r.out), eng


def bad(sc, problem, **d):
    d.update(problem=problem, source=dict(sc.src))
    return d


# ---- the kind of stream does not matter
def kinds(sc, env, rec):
    err, want, _ = model(sc, env)
    if err is not None:
        return
    for kind in KINDS:
        for debug in (0, 1):
            with Std() as std:
                s = kind() if kind else None
                exc, eng = run(sc, env, s, debug=debug)
            got = s.getvalue() if kind else std.out.getvalue()
            rec.execution(eng.trace, final=want)
            name = kind.__name__ if kind else 'no stream'
            if exc is not None or got != want:
                return bad(sc, 'output to this stream', stream=name, expected=want, actual=got, error=repr(exc), printed=std.out.getvalue())
            if kind and std.out.getvalue() or not std.kept or not debug and std.err.getvalue():
                return bad(sc, 'something was written elsewhere', stream=name, printed=std.out.getvalue() if kind else '', errors=std.err.getvalue())


# ---- evaluations fail
def faults(sc, env, rec):
    err, full, eng = model(sc, env)
    if err is not None:
        return
    for k in range(1, eng.nevals + 1):
        err, least, _ = model(sc, env, (k,))
        s = Plain()
        with Std() as std:
            exc, eng2 = run(sc, env, s, (k,))
        got = s.getvalue()
        rec.execution(eng2.trace, final=got)
        if std.out.getvalue() or std.err.getvalue():
            return bad(sc, 'something was written elsewhere', printed=std.out.getvalue(), errors=std.err.getvalue())
        if err is None:
            if exc is not None or got != least:
                return bad(sc, 'output with a handled failure', expected=least, actual=got, error=repr(exc), event=k)
            continue
        if exc is not eng2.thrown:
            return bad(sc, 'another failure reached the caller', actual=repr(exc), event=k)
        if not got.startswith(least):
            return bad(sc, 'output before the failure is missing or altered', expected=least, actual=got, event=k)
        if not full.startswith(got):
            return bad(sc, 'more than the document up to the failure was written', expected=full, actual=got, event=k)


# ---- the stream fails
def stream_faults(sc, env, rec):
    err, full, _ = model(sc, env)
    if err is not None:
        return
    s = Plain()
    exc, _ = run(sc, env, s)
    if exc is not None or s.getvalue() != full:
        return bad(sc, 'output', expected=full, actual=s.getvalue(), error=repr(exc))
    for k in range(1, s.n + 1):
        t = Plain(k)
        with Std() as std:
            exc, eng = run(sc, env, t)
        got = t.getvalue()
        rec.execution(eng.trace, final=(k, got))
        if exc is not t.thrown or exc is None:
            return bad(sc, 'a failing stream did not reach the caller', actual=repr(exc), write=k)
        if got != ''.join(s.parts[:k - 1]):
            return bad(sc, 'what was written before the stream failed', expected=s.parts[:k - 1], actual=t.parts, write=k)
        if t.after:
            return bad(sc, 'written to a stream that failed', write=k)
        if std.out.getvalue() or std.err.getvalue():
            return bad(sc, 'something was written elsewhere', printed=std.out.getvalue(), errors=std.err.getvalue())


# ---- spaces
def dressed(fn):
    def judge(fs, rec):
        try:
            for sc, es in dress.scenarios(fs, True):
                env = es[-1] if any(x == 'rep' for _, x in fs) else es[0]
                d = fn(sc, env, rec)
                if d:
                    d['features'] = repr(fs)
                    return d
        except diff.Rejected as e:
            return rejected(e)
    return judge


ALPHA = ('txt', 'stx', 'att', 'defl', 'loop', 'cond', 'omit', 'unit', 'name', 'err', 'dom', 'use', 'fill')
_bases = {}


def base(lib, xml):
    if (lib, xml) not in _bases:
        _bases[lib, xml] = scenario(libs.libnodes(lib), xml)
    return _bases[lib, xml]


def gen_terms(n):
    def gen():
        for k in range(1, n + 1):
            for f in terms.forests(k, ALPHA, 2, False, False):
                for lib in (list(libs.LIBS) if 'use' in libs.kinds(f) else ['slot']):
                    yield f, lib
    return gen


def judged(fn):
    def judge(case, rec):
        f, lib = case
        for xml in (False, True):
            try:
                sc = scenario([('page', terms.page(f))], xml, base=base(lib, xml))
            except diff.Rejected as e:
                return rejected(e)
            d = fn(sc, Auto(), rec)
            if d:
                return d
    return judge


def spaces(tier):
    deep = tier == 'thorough'
    a, b = (4, 3) if deep else (3, 2)
    what = 'all templates of <=%d of 13 constructors, 4 macro libraries, HTML and XML'
    return [
        Space('streams', lambda: dress.combos(0, b), dressed(kinds), dress.WHAT % (b, '') + ', each to %d kinds of stream, also with debugging' % len(KINDS)),
        Space('failures', lambda: dress.combos(0, a), dressed(faults), dress.WHAT % (a, '') + '; a failure at every evaluation'),
        Space('stream-failures', lambda: dress.combos(0, a), dressed(stream_faults), dress.WHAT % (a, '') + '; the stream fails at every write'),
        Space('terms-streams', gen_terms(b), judged(kinds), what % b),
        Space('terms-failures', gen_terms(a), judged(faults), what % a + '; a failure at every evaluation'),
        Space('terms-stream-failures', gen_terms(a), judged(stream_faults), what % a + '; the stream fails at every write'),
    ]
