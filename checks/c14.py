"""C14: compiled templates are reusable: history never changes a rendering."""
import copy
import os
import pickle
import tempfile

from mc import real
from mc.ast import XMLNS
from mc.engine import DEFAULT, Engine, errname
from mc.real import Message

from . import dress
from .lib import *
from .lib import rejected

ASSUMPTIONS = ['every rendering uses a new interpreter object, as the API documents', 'baselines come from processes in which nothing else was run']

NSD = ' '.join('%s="%s"' % a for a in XMLNS)
LIB = ('<lib><m metal:define-macro="m1" tal:attributes="k k"><s metal:define-slot="a" tal:content="t">d</s><u tal:repeat="y r" '
       'tal:content="v:y"/></m><m metal:define-macro="m2" metal:extend-macro="m1"><s metal:fill-slot="a">B<s metal:define-slot="b"/></s></m>'
       '<m metal:define-macro="m3"><i metal:define-macro="m4">N<s metal:define-slot="a"/></i></m></lib>')
TEMPLATES = {
    # name: (source, uses)
    'plain': '<q class="c" tal:content="t">d</q><br><q tal:attributes="class k; id t" class="x"/>',
    'struct': '<q id="1" tal:replace="structure s" tal:attributes="class k; id t">d</q><q tal:content="structure s"/><w/>',
    'i18n': '<q i18n:domain="dd" i18n:translate="">hello <i i18n:name="n" tal:content="t"/> <b i18n:name="b" tal:replace="k"/></q>'
            '<q i18n:translate="" tal:content="M"/><q title="T" i18n:attributes="title id" tal:content="M"/><i i18n:translate="id2" i18n:data="z">x <b i18n:name="w">y</b></i>',
    'scope': '<q tal:define="x t; global g k" tal:repeat="y r"><i tal:content="v:x"/><i tal:define="x v:y" tal:content="v:x"/></q><q tal:content="v:g"/>',
    'error': '<q tal:on-error="h"><i tal:define="x t" i18n:translate="">a<b i18n:name="n" tal:content="structure s"/></i><j metal:use-macro="m1">'
             '<s metal:fill-slot="a" tal:content="k"/></j></q><q tal:content="structure s"/>',
    'macro': '<q metal:use-macro="m1"><s metal:fill-slot="a" tal:repeat="y r" tal:content="structure s"/></q><q metal:use-macro="m2"/>',
    'ext': '<q metal:use-macro="m2"><s metal:fill-slot="b" tal:attributes="id k">F</s></q><q metal:use-macro="dflt">own</q>',
    'wrapped': '<input type="text" name="a long name" value="another long value" class="some more text" tal:attributes="value t; title k"><q/>',
    'define': '<q metal:define-macro="own" tal:condition="c"><s metal:define-slot="z" tal:omit-tag="o">x</s></q><q metal:use-macro="m1"/>',
    'nested': '<q metal:use-macro="m3"/><q metal:define-macro="m5"><i metal:use-macro="m3"><s metal:fill-slot="a" tal:content="k"/></i>'
              '<i metal:define-macro="m6">x</i></q><q metal:use-macro="m4"><s metal:fill-slot="a">y<i metal:define-macro="m7"/></s></q>',
    'pre': '<pre i18n:translate="">a\n  b <i i18n:name="n">c\n d</i></pre><p>x<p>y',
}
BADSRC = ['<q tal:foo="x"/>', '<q tal:define="x"/>', '<q></i>', '<q metal:define-macro="m"><i metal:define-slot="1"/></q>',
          '<q i18n:translate=""><i metal:use-macro="x"><j metal:fill-slot="a"/><j metal:fill-slot="a"/></i></q>', '<q tal:content="bad"/>']
OPTS = {'': {}, 'expand': dict(tal=0), 'show': dict(showtal=1), 'loose': dict(strictinsert=0), 'wrap': dict(wrap=20),
        'notes': dict(sourceAnnotations=1), 'off': dict(tal=0, metal=0), 'limit': dict(stackLimit=1), 'untr': dict(i18nInterpolate=0)}


def source(name, xml):
    s = LIB if name == 'lib' else TEMPLATES[name] if name in TEMPLATES else name
    if xml:
        s = s.replace('<br>', '<br/>').replace('<p>x<p>y', '<p>x</p><p>y</p>')
        s = s.replace('class="some more text" tal:attributes="value t; title k">', 'class="some more text" tal:attributes="value t; title k"/>')
        s = '<r %s>%s</r>' % (NSD, s)
    return s


def environment():
    return {'t': 'T<', 'k': 'K', 's': '<u id="5" class="o">S</u><v/>', 'r': ['1', '2'], 'h': 'H', 'c': 1, 'o': 0,
            'M': Message('mid', 'mdom', 'default', {'a': 'b'}), 'z': {'dat': 'D'}}


class World:
    """What one history shares: compiled templates, the macros and the values."""

    def __init__(self):
        self.progs = {}
        self.env = environment()
        self.snap = repr(self.env)

    def prog(self, name, xml):
        k = name, xml
        if k not in self.progs:
            p = real.compile_source(source(name, xml), xml, name)
            self.progs[k] = [p, pickle.dumps(p)]
        return self.progs[k][0]

    def macros(self, xml):
        m = dict(self.prog('lib', xml)[1])
        m['dflt'] = DEFAULT
        return m

    def damaged(self):
        for k, (p, snap) in self.progs.items():
            if p != pickle.loads(snap):
                return 'compiled template %s modified' % (k,)
        if repr(self.env) != self.snap:
            return 'values modified: %s' % self.env
        return None


def perform(op, w):
    """Execute one operation; a picklable observation."""
    kind = op[0]
    if kind == 'render':
        _, name, xml, opt, fail = op
        p, m = w.prog(name, xml)
        mac = w.macros(xml)
        mac.update({k: v for k, v in m.items() if k not in mac})
        e = Engine(w.env, mac, fail_at=(fail,) if fail else (), where=True, watch=True)
        out = real.Out()
        try:
            real.TALInterpreter(p, m, e, out, **dict({'wrap': 0}, **OPTS[opt]))()
            err = None
        except Exception as x:
            err = errname(x)
        return out.getvalue(), err, e.trace, e.lookups, len(e.scopes) if err is None else 0
    if kind == 'compile':
        _, name, xml = op
        try:
            p = real.make_parser(xml, name)
            p.parseString(source(name, xml))
            a = p.getCode()
            b = p.getCode()
            return a, a == b
        except real.DOCUMENTED as x:
            return type(x).__name__, str(x)
    if kind == 'dummy':
        _, name = op
        p, m = w.prog(name, False)
        out = real.Out()
        try:
            p, m = real.compile_source('<q tal:define="global x string:1; y string:2" tal:content="y">z</q><i tal:repeat="j python:[1,2]" tal:content="j"/>'
                                       '<b i18n:translate="">foo <i i18n:name="n">x</i></b>', False, None, real.DummyEngine())
            real.TALInterpreter(p, m, real.DummyEngine(m), out, wrap=0)()
            err = None
        except Exception as x:
            err = repr(x)
        return out.getvalue(), err
    if kind == 'extract':
        _, name = op
        p, m = w.prog(name, False)
        e = real.talgettext.POEngine()
        e.file = name
        try:
            real.talgettext.POTALInterpreter(p, m, e, stream=real.Out(), metal=False)()
            err = None
        except Exception as x:
            err = repr(x)
        return sorted((d, str(i), [tuple(map(str, x)) for x in v]) for d, c in e.catalog.items() for i, v in c.items()), err


def ops(level):
    res = []
    for xml in (False, True):
        for n in TEMPLATES:
            res.append(('render', n, xml, '', 0))
    core = list(res)
    for xml in (False, True):
        for n in TEMPLATES:
            res.append(('compile', n, xml))
            for o in OPTS:
                if o and (level > 1 or o in ('expand', 'loose', 'wrap', 'show', 'limit')):
                    res.append(('render', n, xml, o, 0))
            for f in (1, 2, 3, 5, 8) if level > 1 else (2, 5):
                res.append(('render', n, xml, '', f))
    for b in BADSRC:
        for xml in (False, True):
            res.append(('compile', b, xml))
    res.append(('dummy', 'plain'))
    for n in TEMPLATES:
        res.append(('extract', n))
    core += [('render', 'error', False, '', f) for f in range(1, 8)] + [('render', 'macro', True, '', 3), ('compile', 'macro', False),
             ('compile', BADSRC[4], False), ('dummy', 'plain'), ('extract', 'i18n'), ('render', 'ext', False, 'limit', 0),
             ('render', 'struct', False, 'loose', 0), ('render', 'wrapped', False, 'wrap', 0), ('render', 'macro', False, 'notes', 0)]
    return res, core


# ---- the same compiled template and the same values, again and after failures
def judge_dress(fs, rec):
    try:
        for sc, es in dress.scenarios(fs, True):
            snap = pickle.dumps(sc.prog)
            for env in dict.fromkeys((0, len(es) - 1)):
                env = {k: list(v) if isinstance(v, (tuple, str)) and k[0] == 'r' else v for k, v in es[env].items()}
                vals = repr(env)
                first = sc.actual(env, watch=True, where=True)

                def again(what):
                    o = sc.actual(env, watch=True, where=True)
                    rec.execution([fs, what], o.trace, final=o.text)
                    if (o.text, o.error, o.trace, o.depth) != (first.text, first.error, first.trace, first.depth):
                        return dict(diff.mismatch(first, o) or {}, problem='rendering %s differs' % what)
                    if sc.prog != pickle.loads(snap):
                        return {'problem': 'compiled template modified ' + what}
                    if repr(env) != vals:
                        return {'problem': 'values modified ' + what, 'expected': vals, 'actual': repr(env)}
                d = again('the second time')
                for k in range(1, first.eng.nevals + 1):
                    if d is None:
                        sc.actual(env, fail_at=(k,))
                        d = again('after a failure at event %d' % k)
                if d:
                    return dict(d, source=sc.src, features=repr(fs))
    except diff.Rejected as e:
        return rejected(e)


_baseline = {}


def baseline(allops):
    """Each operation alone, in a process that did nothing else."""
    if _baseline:
        return _baseline
    for op in allops:
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                data = pickle.dumps(('ok', perform(op, World())))
            except BaseException as e:
                data = pickle.dumps(('harness', repr(e)))
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        kind, val = pickle.loads(data)
        if kind != 'ok':
            raise RuntimeError('%r: %s' % (op, val))
        _baseline[op] = val
    return _baseline


def make(tier):
    level = 2 if tier == 'thorough' else 1
    allops, core = ops(level)
    allops = list(dict.fromkeys(allops + core))

    def judge(hist, rec):
        base = baseline(allops)
        w = World()
        for i, op in enumerate(hist):
            got = perform(op, w)
            # pickling gives the comparison the same footing as the baseline
            if got != base[op]:
                return {'problem': 'operation %d behaves differently after the others: %r' % (i + 1, op),
                        'expected': str(base[op])[:800], 'actual': str(got)[:800]}
            d = w.damaged()
            if d:
                return {'problem': d, 'after': repr(op)}
        rec.execution(hist)
        rec.traces += len(hist) - 1

    def gen1():
        for op in allops:
            yield (op,)
            yield (op, op)

    def gen2():
        for h in itertools.product(allops, repeat=2):
            yield h

    def gen3():
        # every operation between two of the core, observed by the last
        mids = core if tier != 'thorough' else allops
        for a in core[:20]:
            for b in mids:
                for c in core[:20]:
                    yield a, b, c

    def gen4():
        few = core[:10:2] + core[20:24] + [('render', 'macro', False, 'notes', 0)]
        for h in itertools.product(few, repeat=4):
            yield h
    # the same compiled template, rendered with a fault at every point, then again

    def gen_faults():
        for n in TEMPLATES:
            for xml in (False, True):
                for opt in ('', 'loose', 'show'):
                    yield n, xml, opt

    def judge_faults(case, rec):
        n, xml, opt = case
        base = baseline(allops)
        w = World()
        ok = ('render', n, xml, '', 0)
        for f in range(1, 60):
            r = perform(('render', n, xml, opt, f), w)
            got = perform(ok, w)
            rec.execution([case, f], got[2])
            d = w.damaged()
            if d or got != base[ok]:
                return {'problem': d or 'rendering after a failed one differs', 'fault': f, 'expected': str(base[ok])[:600],
                        'actual': str(got)[:600]}
            if len(r[2]) < f:
                break
    k = 4 if tier == 'thorough' else 3
    return [
        Space('dressed', lambda: dress.combos(0, k), judge_dress, dress.WHAT % (k, '') + '; twice, and after a fault at every event'),
        Space('one', gen1, judge, 'each of %d operations, once and twice' % len(allops)),
        Space('two', gen2, judge, 'all histories of 2 of %d operations' % len(allops)),
        Space('three', gen3, judge, 'histories of 3'),
        Space('four', gen4, judge, 'histories of 4 of 10 operations'),
        Space('faults', gen_faults, judge_faults, 'a fault at every engine call, then a normal rendering'),
    ]


def spaces(tier):
    return make(tier)
