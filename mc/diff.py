"""Run one scenario on the model and on the implementation and compare."""
from . import ast, real, ref
from .engine import DEFAULT, Boom, Engine, HarnessError, Raise, Seq, errname


class Rejected(Exception):
    pass


class Scenario:
    """A set of compiled templates, on both sides.

    templates: list of (file, nodes).  xml: document mode of all of them.
    The last template is the page.  files: whether, or which, have file names.  macros: {expr: (file, macro name) or value};
    by default every macro of every template under its own name.
    """

    def __init__(self, templates, xml=False, macros=None, attr_sep=' ', files=True, base=None, bare=False):
        self.xml = xml
        self.src = {}
        self.ref = {}
        self.prog = {}
        if base is not None:
            self.src.update(base.src)
            self.ref.update(base.ref)
            self.prog.update(base.prog)
        for file, nodes in templates:
            if xml:
                nodes = ast.xml_root(nodes) if bare else ast.xml_doc(nodes)
            src = ast.to_source(nodes, attr_sep)
            f = file if files is True or files and file in files else None
            self.src[file] = src
            t = self.ref[file] = ref.Template(nodes, xml, f)
            try:
                self.prog[file] = real.compile_source(src, xml, f)
            except Exception as e:
                raise Rejected(src, e)
        self.page = templates[-1][0]
        self.rm, self.im = {}, {}
        if macros is None:
            for file, t in self.ref.items():
                for m in t.macros:
                    self.rm[m] = t.macros[m]
                    self.im[m] = self.prog[file][1][m]
        else:
            for k, v in macros.items():
                self.rm[k], self.im[k] = self._pair(v)

    def _pair(self, v):
        if isinstance(v, tuple):
            return self.ref[v[0]].macros[v[1]], self.prog[v[0]][1][v[1]]
        if isinstance(v, Seq):
            ps = [self._pair(x) for x in v.vals]
            return Seq(*[p[0] for p in ps]), Seq(*[p[1] for p in ps])
        return v, v

    def expect(self, env, **kw):
        eng, opts = self._engine(env, self.rm, kw)
        r = ref.Render(self.ref[self.page], eng, is_message=real.is_message, **opts)
        o = run(r.run, eng)
        if o.error not in (None, 'Boom', 'Undefined', 'METAL', 'STRUCTURE') and o.exc is not o.eng.thrown:
            raise HarnessError('model failed: %s %s %r' % (o.error, o.text, self.src))
        return o

    def actual(self, env, **kw):
        eng, opts = self._engine(env, self.im, kw)
        if 'limit' in opts:
            opts['stackLimit'] = opts.pop('limit')
        if 'interpolate' in opts:
            opts['i18nInterpolate'] = opts.pop('interpolate')
        p, m = self.prog[self.page]
        return run(lambda: real.render(p, m, eng, **opts), eng)

    @staticmethod
    def _engine(env, macros, kw):
        kw = dict(kw)
        e = Engine(env, macros, fail_at=kw.pop('fail_at', ()), watch=kw.pop('watch', False),
                   where=kw.pop('where', False), vars=kw.pop('vars', None),
                   translate=kw.pop('translate', None))
        e.hide = kw.pop('hide', ())
        e.fault = kw.pop('fault', Boom)
        return e, kw


class Outcome:
    __slots__ = ('text', 'error', 'trace', 'depth', 'eng', 'exc')


def run(fn, eng):
    o = Outcome()
    o.text = o.error = o.exc = None
    try:
        o.text = fn()
    except HarnessError as e:
        # the implementation evaluated something that is not in the template
        o.error = 'HarnessError'
        o.text = str(e)
    except Exception as e:
        o.error = errname(e)
        o.exc = e
    o.trace = eng.trace
    o.depth = len(eng.scopes)
    o.eng = eng
    return o


def mismatch(exp, act, failpos=False, output=True):
    """None if the implementation did what the model says, else a description."""
    why = None
    if exp.error is None and act.error is not None:
        why = 'implementation failed with ' + act.error
    elif exp.error is not None and act.error is None:
        why = 'implementation did not fail'
    elif exp.error is not None and exp.error != act.error:
        why = 'different failure'
    elif exp.error is not None and (exp.exc is exp.eng.thrown) != (act.exc is act.eng.thrown):
        why = 'the failure that reached the caller is not the one that happened'
    elif output and exp.text != act.text:
        why = 'different output'
    elif exp.trace != act.trace:
        why = 'different engine calls'
    elif exp.error is None and exp.depth != act.depth:
        why = 'engine scopes not balanced'
    elif failpos and exp.error == 'Boom' and \
            exp.trace[-1][0] not in ('next', 'translate', 'code') and \
            (exp.eng.source_file, exp.eng.position) != (act.eng.source_file, act.eng.position):
        why = 'different position after failure'
    if why is None:
        return None
    d = {'problem': why, 'expected': exp.error or exp.text, 'actual': act.error or act.text}
    if why == 'different position after failure':
        d['expected'] = (exp.eng.source_file, exp.eng.position)
        d['actual'] = (act.eng.source_file, act.eng.position)
    a, b = exp.trace, act.trace
    if a != b:
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        d['first differing call'] = i
        d['expected call'] = a[i] if i < len(a) else None
        d['actual call'] = b[i] if i < len(b) else None
    return d


def check(sc, env, rec, **kw):
    failpos = kw.pop('failpos', False)
    output = kw.pop('output', True)
    exp = sc.expect(env, **kw)
    act = sc.actual(env, **kw)
    rec.execution(exp.trace, final=exp.error or exp.text)
    d = mismatch(exp, act, failpos, output)
    if d is not None:
        d['source'] = dict(sc.src)
        d['data'] = repr(env)
        d['options'] = repr(kw)
    return d
