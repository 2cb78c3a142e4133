"""C15: concurrent compilations and renderings do not influence each other.

Schedules are enumerated on the real code: one thread is stopped before a
chosen source line of the package, the other thread runs (to its end, or to a
chosen line of its own), then the first one continues.  All choices of the line
are explored.
"""
import os
import sys
import threading

from mc import real
from mc.engine import Compiler, Engine

from .c14 import BADSRC, OPTS, TEMPLATES, World, perform
from .lib import *

ASSUMPTIONS = ['threads switch between source lines of the package (bytecode-level switches inside a line are not explored)',
               'each thread has its own engine, interpreter and stream; compiled templates are shared',
               'thread switches: 1 for all pairs, 2 for the listed pairs, 2 threads (3 in the thorough tier)']
PKG = os.path.join(real.SRC, 'zope', 'tal') + os.sep
BLOCKED = 1.0


class Thread(threading.Thread):
    """Runs an operation; calls hook(n) before its n-th line in the package."""

    def __init__(self, op, world, hook, calls=False):
        threading.Thread.__init__(self, daemon=True)
        self.op, self.world, self.hook, self.calls = op, world, hook, calls
        self.lines = 0
        self.result = self.failed = None

    def run(self):
        def local(frame, event, arg):
            if event == 'line':
                self.lines += 1
                self.hook(self)
            return local

        def glob(frame, event, arg):
            if self.calls:
                # only the starts of functions
                if frame.f_code.co_filename.startswith(PKG):
                    self.lines += 1
                    self.hook(self)
                return None
            return local if frame.f_code.co_filename.startswith(PKG) else None
        sys.settrace(glob)
        try:
            self.result = perform(self.op, self.world)
        except BaseException as e:
            self.failed = '%s: %s' % (type(e).__name__, e)
        finally:
            sys.settrace(None)


def nothing(t):
    pass


def alone(op, w, calls=False):
    t = Thread(op, w, nothing, calls)
    t.start()
    t.join()
    if t.failed:
        raise RuntimeError(t.failed)
    return t.result, t.lines


def finish(t):
    t.join(60)
    return not t.is_alive()


def switch1(a, b, i, w):
    """a up to line i, b completely, rest of a."""
    tb = Thread(b, w, nothing)

    def hook(t):
        if t.lines == i:
            tb.start()
            tb.join(BLOCKED)          # if b has to wait for a, a goes on
    ta = Thread(a, w, hook)
    ta.start()
    ok = finish(ta)
    if not tb.is_alive() and tb.ident is None:
        tb.start()
    return ta, tb, ok and finish(tb)


def switch2(a, b, i, j, w, calls=False):
    """a up to line i, b up to line j, rest of a, rest of b."""
    paused, resume = threading.Event(), threading.Event()

    def hook_b(t):
        if t.lines == j:
            paused.set()
            resume.wait(30)
    tb = Thread(b, w, hook_b, calls)

    def hook(t):
        if t.lines == i:
            tb.start()
            paused.wait(BLOCKED)
    ta = Thread(a, w, hook, calls)
    ta.start()
    ta.join(BLOCKED)                  # if a has to wait for b, b goes on
    resume.set()
    ok = finish(ta)
    if tb.ident is None:
        tb.start()
    return ta, tb, ok and finish(tb)


def switch3(a, b, c, i, j, w):
    """a up to line i, b up to line j, c completely, rest of b, rest of a."""
    tc = Thread(c, w, nothing)

    def hook_b(t):
        if t.lines == j:
            tc.start()
            tc.join(BLOCKED)
    tb = Thread(b, w, hook_b)

    def hook(t):
        if t.lines == i:
            tb.start()
            tb.join(3 * BLOCKED)
    ta = Thread(a, w, hook)
    ta.start()
    ok = finish(ta)
    for t in (tb, tc):
        if t.ident is None:
            t.start()
    return ta, tb, tc, ok and finish(tb) and finish(tc)


OPS = [('render', n, False, '', 0) for n in TEMPLATES] + [('render', 'struct', True, '', 0), ('render', 'macro', True, '', 0),
       ('compile', 'macro', False), ('compile', 'i18n', False), ('compile', 'ext', True), ('compile', 'pre', False), ('render', 'error', False, '', 4),
       ('render', 'macro', False, 'notes', 0), ('render', 'wrapped', False, 'wrap', 0), ('render', 'ext', False, 'expand', 0),
       ('extract', 'i18n'), ('dummy', 'plain')]
SMALL = [('render', 'plain', False, '', 0), ('render', 'scope', False, '', 0), ('render', 'struct', False, '', 0), ('render', 'i18n', False, '', 0),
         ('compile', 'plain', False), ('render', 'define', False, '', 0), ('compile', 'define', False)]
_world = None
_alone = {}


def world():
    global _world
    if _world is None:
        _world = World()
        for n in list(TEMPLATES) + ['lib']:
            for xml in (False, True):
                _world.prog(n, xml)
    return _world


def base(op, calls=False):
    if (op, calls) not in _alone:
        _alone[op, calls] = alone(op, world(), calls)
    return _alone[op, calls]


def verdict(threads, ok, what):
    if not ok:
        return {'problem': 'threads do not finish', 'schedule': what}
    for t in threads:
        if t.failed:
            return {'problem': 'thread failed: ' + t.failed, 'schedule': what}
        if t.result != base(t.op)[0]:
            return {'problem': 'result of %r differs from the result alone' % (t.op,), 'schedule': what,
                    'expected': str(base(t.op)[0])[:600], 'actual': str(t.result)[:600]}
    d = world().damaged()
    if d:
        return {'problem': d, 'schedule': what}


def gen_one(pairs):
    def gen():
        for a, b in pairs:
            for part in range(4):
                yield a, b, part
    return gen


def judge_one(case, rec):
    a, b, part = case
    w = world()
    n = base(a)[1]
    base(b)
    for i in range(1 + part, n + 1, 4):
        ta, tb, ok = switch1(a, b, i, w)
        rec.execution([a, b, i])
        rec.transitions += 1
        d = verdict((ta, tb), ok, 'first thread %r stopped before line event %d of %d, second %r runs' % (a, i, n, b))
        if d:
            return d


def gen_two(ops, stride):
    def gen():
        for a in ops:
            for b in ops:
                for i in range(1, base(a)[1] + 1, stride):
                    yield a, b, i, stride
    return gen


def judge_two(case, rec):
    a, b, i, stride = case
    w = world()
    for j in range(1, base(b)[1] + 1, stride):
        ta, tb, ok = switch2(a, b, i, j, w)
        rec.execution([a, b, i, j])
        d = verdict((ta, tb), ok, 'first %r to line event %d, second %r to %d, first, second' % (a, i, b, j))
        if d:
            return d


def gen_calls(pairs, stride=1):
    def gen():
        for a, b in pairs:
            for i in range(1, base(a, True)[1] + 1, stride):
                yield a, b, i, stride
    return gen


def judge_calls(case, rec):
    a, b, i, stride = case
    w = world()
    for j in range(1, base(b, True)[1] + 1, stride):
        ta, tb, ok = switch2(a, b, i, j, w, True)
        rec.execution([a, b, i, j])
        d = verdict((ta, tb), ok, 'first %r to call %d, second %r to call %d, first, second' % (a, i, b, j))
        if d:
            return d


def gen_three(ops, stride):
    def gen():
        for a in ops:
            for b in ops:
                for c in ops:
                    for i in range(1, base(a)[1] + 1, stride):
                        yield a, b, c, i, stride
    return gen


def judge_three(case, rec):
    a, b, c, i, stride = case
    w = world()
    for j in range(1, base(b)[1] + 1, stride):
        ta, tb, tc, ok = switch3(a, b, c, i, j, w)
        rec.execution([a, b, c, i, j])
        d = verdict((ta, tb, tc), ok, '%r to line event %d, %r to %d, %r, rest' % (a, i, b, j, c))
        if d:
            return d


# ---- switched inside the calls of the engine and the expression compiler
class Nest:
    """While active, runs b inside the n-th call of a's engine or compiler."""

    def __init__(self, n=0, b=None, w=None):
        self.n, self.b, self.w = n, b, w
        self.calls = 0
        self.result = None

    def call(self):
        self.calls += 1
        if self.calls == self.n:
            off()
            try:
                self.result = perform(self.b, self.w)
            finally:
                on(self)


_point, _compile = Engine._point, Compiler.compile


def off():
    Engine._point, Compiler.compile = _point, _compile


def on(nest):
    def point(self, *ev):
        nest.call()
        return _point(self, *ev)

    def compile(self, expr):
        nest.call()
        return _compile(self, expr)
    Engine._point, Compiler.compile = point, compile


def nested(a, b, n, w):
    nest = Nest(n, b, w)
    on(nest)
    try:
        return perform(a, w), nest
    finally:
        off()


_plain = {}


def plain(op):
    if op not in _plain:
        _plain[op] = perform(op, world())
    return _plain[op]


NESTED = OPS + [('render', n, x, o, 0) for n in TEMPLATES for x in (False, True) for o in OPTS if o] + \
    [('compile', n, x) for n in TEMPLATES for x in (False, True)] + [('compile', b, False) for b in BADSRC] + \
    [('extract', n) for n in TEMPLATES] + [('render', n, False, '', f) for n in TEMPLATES for f in (1, 2, 3)]
NESTED = list(dict.fromkeys(NESTED))


def gen_nested(outer):
    def gen():
        for a in outer:
            for b in NESTED:
                yield a, b
    return gen


def judge_nested(case, rec):
    a, b = case
    w = world()
    want = plain(a), plain(b)
    n = nested(a, b, 0, w)[1].calls
    for i in range(1, n + 1):
        got, nest = nested(a, b, i, w)
        rec.execution([a, b, i], final=repr(got)[:2000])
        if (got, nest.result) != want:
            k = 0 if got != want[0] else 1
            return {'problem': 'result of %r differs from the result alone' % (case[k],), 'schedule': '%r inside call %d of the engine of %r' % (b, i, a),
                    'expected': str(want[k])[:600], 'actual': str((got, nest.result)[k])[:600]}
        d = w.damaged()
        if d:
            return {'problem': d, 'schedule': '%r inside call %d of the engine of %r' % (b, i, a)}


def spaces(tier):
    inside = Space('inside-calls', gen_nested(NESTED if tier == 'thorough' else OPS), judge_nested,
                   '%d operations, in every engine or compiler call of each, each of %d operations' % (len(NESTED if tier == 'thorough' else OPS), len(NESTED)))
    return [inside] + schedules(tier)


def schedules(tier):
    if tier == 'thorough':
        return [
            Space('one-switch', gen_one(list(itertools.product(OPS, OPS))), judge_one, 'all pairs of %d operations, switched at every line' % len(OPS)),
            Space('two-call-switches', gen_calls(list(itertools.product(OPS[:10], OPS[:10]))), judge_calls,
                  'all pairs of 10 renderings, switched at every function call in both threads'),
            Space('two-call-switches-all', gen_calls(list(itertools.product(OPS, OPS)), 5), judge_calls,
                  'all pairs of operations, switched at every fifth function call in both threads'),
            Space('two-switches', gen_two(SMALL, 3), judge_two, 'pairs of %d small operations, every third line in each thread' % len(SMALL)),
            Space('three-threads', gen_three(SMALL[:4], 17), judge_three, 'triples of 4 operations, every 17th line'),
        ]
    fine = [OPS[i] for i in (0, 2, 3, 6, 8, 9)]
    few = [OPS[i] for i in (1, 2, 5, 12, 18)]
    pairs = list(dict.fromkeys([(a, a) for a in OPS] + list(itertools.product(few, few))))
    return [
        Space('one-switch', gen_one(pairs), judge_one, 'each of %d operations with itself and all pairs of 5, switched at every line' % len(OPS)),
        Space('two-call-switches', gen_calls([(a, a) for a in fine] + [(fine[1], a) for a in fine]), judge_calls,
              'each of 6 renderings with itself and with a translating one, switched at every function call in both threads'),
        Space('two-call-switches-wide', gen_calls([(a, a) for a in OPS if a not in fine], 5), judge_calls,
              'each of the other operations with itself, switched at every fifth function call in both threads'),
        Space('two-switches', gen_two(SMALL[:3], 11), judge_two, 'pairs of 3 small operations, every 11th line in each thread'),
    ]
