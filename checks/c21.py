"""C21: the bundled engine implements scopes, loops and lookup faithfully."""
import re

from mc import ast, real, ref
from mc.ast import XMLNS
from mc.engine import Engine
from mc.real import DummyEngine, Message
from zope.tal.dummyengine import MultipleDomainsDummyEngine

from .lib import *

ASSUMPTIONS = ['server-side script evaluation is not in the space', 'leaving the outermost scope is misuse and not in the space']
NAMES = ('x', 'y')
class Items:
    """A sequence that can only be indexed."""

    def __init__(self, n, last=IndexError):
        self.n = n
        self.last = last

    def __getitem__(self, i):
        if i >= self.n:
            raise self.last
        return 'item%d' % i


SEQS = [['p', 'q'], (), 'ab', [None], ('p', 'q', 'r'), Items(3), Items(0), range(2), Items(1, ValueError), Items(2, KeyError)]


class Model:
    """Local scopes over one global scope."""

    def __init__(self):
        self.g = {'nothing': None}
        self.scopes = [{}]
        self.its = []

    def get(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return True, s[n]
        return (True, self.g[n]) if n in self.g else (False, None)


OPS = [('begin',), ('end',), ('local', 'x'), ('local', 'y'), ('global', 'x'), ('global', 'y'), ('repeat', 'x', 0), ('next', -1), ('next', 0),
       ('repeat', 'y', 2), ('local', 'x', None), ('global', 'y', None), ('local', 'y', ''), ('global', 'x', 0)]
FEW = [('begin',), ('end',), ('local', 'x'), ('global', 'x'), ('repeat', 'x', 0), ('next', -1), ('local', 'y'), ('local', 'x', None)]


def step(op, n, m, e):
    """Apply to both; None or a description of a difference."""
    k = op[0]
    if k == 'begin':
        m.scopes.append({})
        e.beginScope()
    elif k == 'end':
        if len(m.scopes) < 2:
            return 'skip'
        m.scopes.pop()
        e.endScope()
    elif k == 'local':
        v = 'l%d' % n if len(op) < 3 else op[2]
        m.scopes[-1][op[1]] = v
        e.setLocal(op[1], v)
    elif k == 'global':
        v = 'g%d' % n if len(op) < 3 else op[2]
        m.g[op[1]] = v
        e.setGlobal(op[1], v)
    elif k == 'repeat':
        seq = SEQS[op[2]]
        e.setGlobal('seq', seq)
        m.g['seq'] = seq
        m.its.append([op[1], seq, 0, e.setRepeat(op[1], e.compile('seq'))])
    elif k == 'next':
        if not m.its:
            return 'skip'
        it = m.its[op[1]]
        more = it[2] < len(it[1])
        if more:
            m.scopes[-1][it[0]] = it[1][it[2]]
            it[2] += 1
        if bool(next(it[3])) != more:
            return 'repeat %s' % ('ended too early' if more else 'did not end')


def observe(m, e):
    for n in NAMES:
        known, v = m.get(n)
        got = e.getValue(n)
        if got != v:
            return 'getValue(%s) is %r instead of %r' % (n, got, v)
        if not known and e.getValue(n, 'dflt') != 'dflt':
            return 'default for %s not returned' % n
        if bool(e.evaluate(e.compile('exists:' + n))) != known:
            return 'exists:%s is wrong' % n
        for form in ('%s', 'path:%s', 'var:%s', 'python:%s', ' %s ', 'local:%s'):
            try:
                got = e.evaluate(e.compile(form % n))
                ok = known and got == v
            except real.taldefs.TALExpressionError:
                ok = not known
            if form == ' %s ':
                pass
            if not ok:
                return 'expression %r gives %r instead of %r' % (form % n, got, v if known else 'an error')
        if e.evaluateText(e.compile('nothing')) is not None or e.evaluate(e.compile('default')) is not e.getDefault():
            return 'nothing or default is wrong'


def gen_ops(n, ops):
    def gen():
        for t in itertools.product(ops, repeat=n):
            yield t
    return gen


def judge_ops(hist, rec):
    m, e = Model(), DummyEngine()
    for n, op in enumerate(hist):
        r = step(op, n, m, e)
        if r == 'skip':
            return                     # not an admissible history
        d = r or observe(m, e)
        if d:
            return {'problem': d, 'operations': hist[:n + 1]}
    # unwinding restores the locals of every enclosing scope
    while len(m.scopes) > 1:
        step(('end',), 0, m, e)
        d = observe(m, e)
        if d:
            return {'problem': d + ' after leaving scopes', 'operations': hist}
    rec.execution(hist, final=repr(m.g))


# ---- two engines at once
def gen_pair(n, ops):
    def gen():
        two = [(i, op) for i in (0, 1) for op in ops] + [(0, ('tr', 'msg')), (1, ('tr', 'other')), (0, ('macro', 'm')), (1, ('macro', 'm'))]
        for t in itertools.product(two, repeat=n):
            yield t
    return gen


def judge_pair(hist, rec):
    ms = [Model(), Model()]
    es = [DummyEngine(), DummyEngine()]
    ids = [[], []]
    macros = [{}, {}]
    for n, (i, op) in enumerate(hist):
        if op[0] == 'tr':
            es[i].translate(op[1] + str(n), 'default')
            ids[i].append(op[1] + str(n))
        elif op[0] == 'macro':
            es[i].macros[op[1]] = [('rawtext', str(n))]
            macros[i][op[1]] = [('rawtext', str(n))]
        elif step(op, n, ms[i], es[i]) == 'skip':
            return
        for j in (0, 1):
            d = observe(ms[j], es[j])
            if d is None:
                try:
                    got = [x[0] for x in es[j].translationDomain.getMsgids('default')]
                except KeyError:
                    got = []
                if got != ids[j]:
                    d = 'message ids are %r instead of %r' % (got, ids[j])
            if d is None and es[j].macros != macros[j]:
                d = 'macros are %r instead of %r' % (es[j].macros, macros[j])
            if d:
                return {'problem': 'engine %d: %s' % (j, d), 'operations': hist[:n + 1]}
    rec.execution(hist)


# ---- values and kinds of evaluation
class O:
    def __str__(self):
        return 'obj'


VALUES = ['text', '', 0, 7, None, 'DEFAULT', [], [1], Message('m'), 1.5, True, False, O()]


def gen_values():
    for v in range(len(VALUES)):
        for n in range(len(SEQS)):
            yield v, n


def judge_values(case, rec):
    vi, si = case
    e = DummyEngine()
    v = e.getDefault() if VALUES[vi] == 'DEFAULT' else VALUES[vi]
    e.setGlobal('v', v)
    e.setGlobal('seq', SEQS[si])
    c = e.compile('v')
    bad = []
    if e.evaluate(c) is not v or e.evaluateValue(c) is not v or e.evaluateStructure(c) is not v:
        bad.append('value changed')
    if v is not e.getDefault() and bool(e.evaluateBoolean(c)) != bool(v):
        bad.append('truth changed')
    t = e.evaluateText(c)
    if (v is None or v is e.getDefault() or isinstance(v, str)):
        if t is not v:
            bad.append('text changed')
    elif t != str(v) or not isinstance(t, str):
        bad.append('text is not str(value)')
    if v is not e.getDefault() and bool(e.evaluate(e.compile('not:v'))) == bool(v):
        bad.append('not:')
    if e.evaluate(e.compile('string:a v: $')) != 'a v: $':
        bad.append('string:')
    it = e.setRepeat('item', e.compile('seq'))
    got = []
    last = getattr(SEQS[si], 'last', IndexError)
    try:
        while next(it):
            got.append(e.getValue('item'))
            if len(got) > 9:
                break
        if last is not IndexError or next(it):
            bad.append('repeat')
    except (ValueError, KeyError) as err:
        if type(err) is not last:
            raise
    if got != (list(SEQS[si]) if last is IndexError else [SEQS[si][i] for i in range(SEQS[si].n)]):
        bad.append('repeat')
    rec.execution([VALUES[vi].__class__.__name__, vi, si], final=repr(t) if not isinstance(v, O) else '')
    if bad:
        return {'problem': ', '.join(bad), 'value': repr(v)}


# ---- every form of expression
PREFIXES = ['', 'path:', 'var:', 'string:', 'str:', 'not:', 'not:not:', 'not:not:not:', 'exists:', 'not:exists:', 'not:string:', 'not:python:', 'python:', 'foo:', 'String:', 'x:', 'not:foo:',
            'exists_:', 'not:var:', 'python:not ']
BODIES = ['x', 'y', 'z', 'nothing', 'X', 'xx', '1', ' x', 'x ', 'x\n', '', 'x:y', 'string:x', 'a b; $x ${x} 100%', 'path:x']
STATES = [None, 'v', '', 0, 'w w']


def gen_expr():
    for p in range(len(PREFIXES)):
        for b in range(len(BODIES)):
            for lx in range(len(STATES)):
                for gx in (-1, 1, 2):
                    yield p, b, lx, gx


UNKNOWN = object()


def meaning(x, m):
    head, sep, tail = x.partition(':')
    if not sep or not re.fullmatch('[A-Za-z_][-A-Za-z0-9_]*', head):
        head, tail = 'path', x
    if head in ('string', 'str'):
        return tail
    if head in ('path', 'var'):
        known, v = m.get(tail.strip())
        return v if known else UNKNOWN
    if head == 'not':
        v = meaning(tail, m)
        return v if v is UNKNOWN else not v
    if head == 'exists':
        return m.get(tail)[0]
    if head == 'python':
        neg = tail.startswith('not ')
        t = tail[4:] if neg else tail
        t = t.strip()
        if t == '1':
            v = 1
        elif t.isidentifier():
            known, v = m.get(t)
            if not known:
                return UNKNOWN
        else:
            return UNKNOWN
        return not v if neg else v
    return UNKNOWN


def judge_expr(case, rec):
    p, b, lx, gx = case
    x = PREFIXES[p] + BODIES[b]
    m, e = Model(), DummyEngine()
    if gx >= 0:
        m.g['x'] = STATES[gx]
        e.setGlobal('x', STATES[gx])
    m.g['y'] = 'why'
    e.setGlobal('y', 'why')
    m.scopes.append({})
    e.beginScope()
    if STATES[lx] is not None or gx == 1:
        m.scopes[-1]['x'] = STATES[lx]
        e.setLocal('x', STATES[lx])
    exp = meaning(x, m)
    for rnd in (1, 2):
        try:
            got = e.evaluate(e.compile(x))
        except real.taldefs.TALExpressionError:
            got = UNKNOWN
    rec.execution([x, lx, gx], final=repr(exp) if exp is not UNKNOWN else 'error')
    if got is not exp and (got != exp or type(got) is not type(exp)):
        return {'problem': 'expression %r' % x, 'expected': 'error' if exp is UNKNOWN else exp, 'actual': 'error' if got is UNKNOWN else got}


# ---- the translation service
PARTS = ['Text', ' ', '$', '$$', '${', '}', '$1', '${a}', '${b-1}', '${_c}', '$a', 'é', '${ a}', '\n', '-x', "don't translate me"]
MAPS = [{'a': 'Val', 'b-1': '${a}', '_c': 7}, {'a': '', 'b-1': None, '_c': '$a', 'a-x': 'AX', 'text': 'T', 'a1': 1}]
DOMAINS = [None, '', 'foo', 'lower', 'upper', 'swapcase', 'default']
LONG = 'a_very_explicit_domain_setup_by_template_developer_that_wont_be_taken_into_account_by_the_ZPT_engine'


def gen_tr(n):
    def gen():
        for k in range(1, n + 1):
            for parts in itertools.product(range(len(PARTS)), repeat=k):
                for mp in (0, 1):
                    yield parts, mp
    return gen


def placeholders(text):
    """Split into literal pieces and placeholder names."""
    out, lit, i = [], '', 0
    while i < len(text):
        if text[i] == '$':
            j = i + 1
            brace = text[j:j + 1] == '{'
            j += brace
            k = j
            if text[k:k + 1] in tuple('_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'):
                while k < len(text) and (text[k] in '_-' or text[k].isalnum()):
                    k += 1
                if not brace or text[k:k + 1] == '}':
                    out.append((lit, text[j:k]))
                    lit, i = '', k + brace
                    continue
        lit += text[i]
        i += 1
    return out, lit


def judge_tr(case, rec):
    parts, mp = case
    text = ''.join(PARTS[i] for i in parts)
    mapping = MAPS[mp]
    pieces, tail = placeholders(text)
    if any(n.lower() not in mapping for _, n in pieces):
        return
    for multi in (0, 1):
        e = MultipleDomainsDummyEngine() if multi else DummyEngine()
        seen = {}
        for how in ('str', 'message', 'plain-message'):
            for d in DOMAINS + [LONG] * multi:
                for dflt in ('str', None, '') if text == "don't translate me" and how == 'message' else ('a ${a} Default',):
                    default = 'a ${a} Default' if dflt else dflt
                    dom = d
                    if how == 'str':
                        msg, given = text, mapping
                        args = (msg, d, mapping, default)
                    else:
                        msg = Message(text, d, default, mapping) if how == 'message' else Message(text, d, None, mapping)
                        given = msg.mapping
                        args = (msg, 'foo', {'a': 'not me'}, 'not this')
                        if how == 'plain-message':
                            default = text
                        elif default is None:
                            default = text
                    if multi and d == LONG and how == 'str':
                        dom = 'lower'
                    service = dom if dom in ('lower', 'upper', 'swapcase') else 'default'
                    fn = getattr(str, 'upper' if service == 'default' else service)
                    if text == "don't translate me":
                        fn = str
                        ps, tl = placeholders(default)
                        service = dom or ''
                    else:
                        ps, tl = pieces, tail
                    exp = ''.join(fn(lit) + str(mapping[n.lower()]) for lit, n in ps) + fn(tl)
                    got = e.translate(*args)
                    if text != "don't translate me":
                        seen.setdefault(service, []).append((text, mapping))
                        ids = [(str(i), dict(m)) for i, m in e.translationDomain.getMsgids(service)]
                        if ids != seen[service]:
                            return {'problem': 'recorded lookups of %r' % service, 'expected': seen[service], 'actual': ids}
                    rec.execution([(how, d, text, mp, multi)], final=exp)
                    if got != exp:
                        return {'problem': 'translation', 'message': text, 'how': how, 'domain': d, 'mapping': mapping, 'expected': exp, 'actual': got}


# ---- failures
class Odd(Exception):
    def __str__(self):
        return 'odd'


FAILS = {'python:1/0': 'TALExpressionError', 'nowhere': 'TALExpressionError', 'foo:x': 'TALExpressionError', 'x': None, 'odd': 'Odd'}
STMTS = [('tal:content', '%s'), ('tal:replace', '%s'), ('tal:condition', '%s'), ('tal:attributes', 'a %s'), ('tal:define', 'v %s'), ('tal:repeat', 'v %s'), ('tal:omit-tag', '%s'),
         ('tal:content', 'structure %s'), ('i18n:data', '%s')]


class OddEngine(DummyEngine):
    def evaluatePathOrVar(self, expr):
        if expr == 'odd':
            self.raised = Odd()
            raise self.raised
        return DummyEngine.evaluatePathOrVar(self, expr)


def gen_fail():
    for x in FAILS:
        for s in range(len(STMTS)):
            for deep in (0, 1, 2):
                yield x, s, deep


def judge_fail(case, rec):
    x, s, deep = case
    name, form = STMTS[s]
    a = [(name, form % x)] + ([('i18n:translate', 'm')] if name == 'i18n:data' else [])
    n = E('b', a, ['body'])
    for i in range(deep):
        n = E('q', [('tal:define', 'error string:mine')] if i else (), [n])
    src = ast.to_source([E('p', [('tal:on-error', 'python:"%s|%s" % (error.type.__name__, isinstance(error.value, error.type))')], [n])])
    e = OddEngine()
    e.setGlobal('x', {'k': 1} if name == 'i18n:data' else 'ab')
    prog = real.compile_source(src, False, 'page', e)
    out = real.render(*prog, e)
    rec.execution([x, name, deep], final=out)
    if FAILS[x]:
        if out != '<p>%s|True</p>' % FAILS[x]:
            return {'problem': 'failure not described', 'source': src, 'expected': FAILS[x], 'actual': out}
    elif 'Error' in out:
        return {'problem': 'failed', 'source': src, 'actual': out}
    for err in (Odd(), ValueError('v'), Odd, 'string'):
        info = e.createErrorInfo(err, (3, 4))
        t, v = (type(err), err) if isinstance(err, Exception) else (err, None)
        if info.type is not t or info.value is not v or (info.lineno, info.offset) != (3, 4):
            return {'problem': 'error information', 'error': repr(err), 'actual': repr(vars(info))}


# ---- templates: the bundled engine against the model
K = ['L', 'G', 'R', 'P', 'LG', 'LR']


def shapes(n):
    """Forests of n nodes as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for sub in shapes(k - 1):
            for rest in shapes(n - k):
                yield (sub,) + rest


def gen_tpl(n):
    def count(f):
        return sum(1 + count(s) for s in f)

    def gen():
        for k in range(1, n + 1):
            for sh in shapes(k):
                for kinds in itertools.product(K, repeat=k):
                    yield sh, kinds
    return gen


def judge_tpl(case, rec):
    sh, kinds = case
    it = iter(enumerate(kinds))

    def build(f):
        out = []
        for sub in f:
            i, k = next(it)
            a = []
            if 'L' in k or 'G' in k:
                a.append(('tal:define', '; '.join({'L': 'x string:L%d', 'G': 'global x string:G%d'}[c] % i for c in k if c in 'LG')))
            if 'R' in k:
                a.append(('tal:repeat', 'x python:["i%d","j%d"]' % (i, i)))
            out.append(E('e', a, [E('i', [('tal:content', 'var:x')], [])] + build(sub) + [E('i', [('tal:content', 'var:x')], [])]))
        return out
    nodes = build(sh) + [E('z', [('tal:content', 'x')], [])]
    src = ast.to_source(nodes)
    t = ref.Template(nodes, False, 'page')
    m = ModelEngine({})
    exp = ref.Render(t, m).run()
    e = DummyEngine()
    e.setGlobal('x', 'start')
    prog = real.compile_source(src, False, 'page', e)
    try:
        out = real.render(*prog, e)
    except Exception as x:
        out = repr(x)
    rec.execution(m.trace, final=exp)
    if out != exp:
        return {'problem': 'template rendered differently with the bundled engine', 'source': src, 'expected': exp, 'actual': out}


class ModelEngine(Engine):
    """The expression forms used above, on the reference engine."""

    def __init__(self, env):
        Engine.__init__(self, env, vars={'x': 'start'})

    def _eval(self, kind, cexpr):
        x = cexpr[1]
        self._point(kind, x)
        if x.startswith('string:'):
            return x[7:]
        if x.startswith('python:'):
            return eval(x[7:])
        return self.lookup(x.replace('var:', ''))


def spaces(tier):
    d = 1 if tier == 'thorough' else 0
    return [
        Space('values', gen_values, judge_values, '13 values x 10 sequences, every kind of evaluation'),
        Space('expressions', gen_expr, judge_expr, '20 prefixes x 15 bodies x 15 states of a variable'),
        Space('translation', gen_tr(3 + d), judge_tr, 'messages of <=%d of 16 parts x 2 mappings x 8 domains x str/Message, two engine classes; recorded lookups' % (3 + d)),
        Space('failures', gen_fail, judge_fail, '5 expressions x 9 statements x 3 depths below tal:on-error'),
        Space('operations', gen_ops(5 + d, OPS), judge_ops, 'all histories of %d of 14 operations, every lookup after every step' % (5 + d)),
        Space('long', gen_ops(6 + d, FEW), judge_ops, 'all histories of %d of 8 operations' % (6 + d)),
        Space('two-engines', gen_pair(4 + d, FEW[:6]), judge_pair, 'all histories of %d operations on two engines' % (4 + d)),
        Space('templates', gen_tpl(4 + d), judge_tpl, 'all templates of <=%d elements with 6 kinds of definitions' % (4 + d)),
    ]
