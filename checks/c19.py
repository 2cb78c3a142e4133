"""C19: inserted structure is checked, inert, and lets the template carry on."""
import xml.parsers.expat

from mc.real import Message
from mc import htmlmodel, real
from mc.ast import NS_URI, XMLNS
from mc.engine import Boom, Engine

from . import dress
from .lib import *

ASSUMPTIONS = ['namespace prefixes used in structure inserted into XML are declared in the structure itself',
               'self-closing HTML elements with tal:content or i18n:translate inside structure are not in the space (they are written '
               'with an end tag)',
               'tags of template-namespace elements inside structure are not claimed to be dropped']

SUFFIX = '<w tal:content="t" x="1"></w><v tal:attributes="k k" /><hr /><i>z</i><u tal:replace="structure z"/>\n'
SUFFIX_OUT = {False: '<w x="1">T&lt;</w><v k="K" /><hr /><i>z</i><b>Z</b>\n',
              True: '<w x="1">T&lt;</w><v k="K"/><hr/><i>z</i><b>Z</b>\n'}
SUFFIX_TRACE = [('text', 't'), ('text', 'k'), ('struct', 'z')]
# place -> (source, text before the structure, text after it, translated?, calls before)
PLACES = {
    'content': ('<q c="d" tal:content="structure s">old</q>', '<q c="d">', '</q>', False),
    'replace': ('<q c="d" tal:replace="structure s">old</q>', '', '', False),
    'tal': ('<tal:x content="structure s">old</tal:x>', '', '', False),
    'omit': ('<q tal:omit-tag="" tal:content="structure s">old</q>', '', '', False),
    'error': ('<q c="d" tal:content="boom" tal:on-error="structure s">old</q>', '<q c="d">', '</q>', False),
    'i18n': ('<q c="d" i18n:translate="" tal:content="structure s">old</q>', '<q c="d">', '</q>', True),
    'loop': ('<q tal:repeat="y r" tal:content="structure s">old</q>', '<q>', '</q>', False),
}
_prog = {}


def program(src, xml):
    k = src, xml
    if k not in _prog:
        if xml:
            src = '<r %s>%s</r>' % (' '.join('%s="%s"' % a for a in XMLNS), src)
        _prog[k] = real.compile_source(src, xml, 'page')
    return _prog[k]


def render(src, xml, env, **kw):
    """(text or None, error name, calls)"""
    p, m = program(src, xml)
    e = Engine(env, **({'translate': lambda i, d, mp, df: '[%s]' % i}))
    try:
        out = real.render(p, m, e, **kw)
    except real.DOCUMENTED:
        return None, 'STRUCTURE', e.trace
    except Boom:
        return None, 'Boom', e.trace
    if xml:
        assert out.startswith('<r>') and out.endswith('</r>'), out
        out = out[3:-4]
    return out, None, e.trace


def calls(trace):
    return [x[:2] for x in trace if x[0] not in ('next', 'error', 'translate')]


def verify(place, xml, value, body, rec, strict=1, model=()):
    """body: expected text of the structure, or None if it must be refused."""
    src, a, b, xl = PLACES[place]
    env = {'s': value, 't': 'T<', 'k': 'K', 'z': '<b>Z</b>', 'boom': Raise(), 'r': 'ab'}
    out, err, trace = render(src + SUFFIX, xml, env, strictinsert=strict)
    reps = 2 if place == 'loop' else 1
    pre = {'error': [('text', 'boom'), ('struct', 's')], 'loop': [('seq', 'r')] + [('struct', 's')] * reps}.get(place, [('struct', 's')])
    if body is None:
        exp, exptrace = None, (pre[:2] if place == 'loop' else pre)
    else:
        exp, exptrace = (a + body + b) * reps + SUFFIX_OUT[xml], pre + SUFFIX_TRACE
    rec.execution(model or [value], exptrace, final=exp)
    d = {'structure': value, 'place': place, 'xml': xml, 'strict': strict, 'expected': exp, 'actual': out if err is None else err}
    if body is None and err != 'STRUCTURE':
        d['problem'] = 'malformed structure was not refused'
    elif body is not None and out != exp:
        d['problem'] = 'different output'
    elif calls(trace) != exptrace:
        d.update(problem='different engine calls', expected=exptrace, actual=calls(trace))
    else:
        return None
    return d


# ---- HTML
DIRS = ('tal:content', 'tal:define', 'metal:use-macro', 'metal:fill-slot', 'i18n:translate', 'i18n:name', 'tal:bad')
HTOK = [('t', 'x'), ('s', 'b', (), False), ('e', 'b'), ('s', 'p', (), False), ('e', 'p'), ('s', 'br', (), False), ('t', ' '),
        ('s', 'li', (('class', 'c'), ('tal:content', 't')), False), ('e', 'li'), ('s', 'b', (('i18n:translate', ''), ('id', '1')), False),
        ('s', 'i', (('metal:use-macro', 'm'),), True), ('t', '&amp;<!-- c -->'), ('s', 'q', (('tal:repeat', 'r r'), ('tal:bad', 'r')), False),
        ('e', 'q')]


def drop(tokens):
    out = []
    for t in tokens:
        if t[0] == 's':
            t = (t[0], t[1], tuple(a for a in t[2] if ':' not in a[0]), t[3])
        out.append(t)
    return out


def gen_html(n, places):
    def gen():
        for k in range(0, n + 1):
            for toks in itertools.product(HTOK, repeat=k):
                yield toks, places
    return gen


def judge_html(case, rec):
    toks, places = case
    src, _ = htmlmodel.source(toks)
    for place in places:
        t = list(toks)
        if PLACES[place][3]:
            t = [('t', '[')] + t + [('t', ']')]
        try:
            body = htmlmodel.write(drop(htmlmodel.nest(t)))
        except htmlmodel.Misnested:
            body = None
        d = verify(place, False, src, body, rec, model=toks)
        if d:
            return d


# ---- XML
NS = ' xmlns:tal="%s" xmlns:metal="%s" xmlns:i18n="%s"' % (NS_URI['tal'], NS_URI['metal'], NS_URI['i18n'])
XTOK = [('t', 'x'), ('s', 'b', '', ''), ('e', 'b'), ('s', 'p', ' class="c"', NS + ' tal:content="t"'), ('e', 'p'), ('n', 'br', '', ''),
        ('t', ' '), ('n', 'i', ' a="1"', ' xmlns:m="%s" m:use-macro="x"' % NS_URI['metal']), ('t', '&amp;<!-- c --><?p q?>'),
        ('t', ']'), ('s', 'b', ' xmlns="u" id="&lt;"', ' xmlns:i="%s" i:translate=""' % NS_URI['i18n']), ('t', '<![CDATA[<]]>'),
        ('s', 'z:q', ' xmlns:z="v"', ''), ('e', 'z:q'), ('t', '<'), ('t', '&'), ('t', '&e;'), ('t', '</foo><foo>')]


def xsource(toks):
    out = []
    for t in toks:
        out.append(t[1] if t[0] == 't' else '</%s>' % t[1] if t[0] == 'e' else '<' + t[1] + t[2] + t[3] + ('/>' if t[0] == 'n' else '>'))
    return ''.join(out)


def xmodel(toks):
    """Expected text or None."""
    out, stack = [], []
    for i, t in enumerate(toks):
        if t[0] == 't':
            if t[1] in ('<', '&', '</foo><foo>'):
                return None
            out.append(t[1])
        elif t[0] == 's':
            stack.append((t[1], len(out)))
            out.append('<' + t[1] + t[2] + '>')
        elif t[0] == 'n':
            out.append('<' + t[1] + t[2] + '/>')
        else:
            if not stack or stack[-1][0] != t[1]:
                return None
            _, at = stack.pop()
            if at == len(out) - 1:
                out[at] = out[at][:-1] + '/>'
            else:
                out.append('</%s>' % t[1])
    return None if stack else ''.join(out)


def gen_xml(n, places):
    def gen():
        for k in range(0, n + 1):
            for toks in itertools.product(XTOK, repeat=k):
                yield toks, places
    return gen


def judge_xml(case, rec):
    toks, places = case
    src = xsource(toks)
    for place in places:
        t = list(toks)
        s = src
        if PLACES[place][3]:
            t = [('t', '[')] + t + [('t', ']')]
            if ']]' in src + ']' and '>' in src:
                pass
        whole = xsource(t)
        body = xmodel(t)
        if body is not None and not wellformed(whole):
            body = None                      # e.g. "]]>" put together from pieces
        d = verify(place, True, s, body, rec, model=toks)
        if d:
            return d


def wellformed(s):
    p = xml.parsers.expat.ParserCreate(None, ' ')
    try:
        p.Parse('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>' + s + '</foo>', True)
    except xml.parsers.expat.ExpatError:
        return False
    return True


# ---- tal:attributes apply to the first element only
FIRST = ['<b>x</b>', '<b id="1" class="c">x</b>', 'txt<b id="&lt;"/>', '<b/><b id="2"/>', '<b><i id="3">y</i></b>', 'no element', '',
         '<!-- c --><b id="4">x</b>', '<b ID="5"/>', '<br/>', '<b title="t">a</b> <b title="u">b</b>', '<b checked="checked"/>']
REPL = ['id a', 'id a; class c', 'title a;id c', 'class c', 'checked a', 'ID a']
AV = ['A<', None, DEFAULT, '', 'x"&']


def gen_first():
    for f in FIRST:
        for r in REPL:
            for static in ('', ' id="S" class="T"'):
                for xml in (False, True):
                    for strict in (0, 1):
                        for wrap in ('plain', 'loop', 'twice'):
                            yield f, r, static, xml, strict, wrap


def judge_first(case, rec):
    from mc import ref
    f, r, static, xml, strict, wrap = case
    one = [('tal:replace', 'structure s'), ('tal:attributes', r)]
    st = [('id', 'S'), ('class', 'T')] if static else []

    def el():
        return E('q', st + one, ['old'])
    if '<!--' in f:
        # outside the fragment grammar of the model: no element attributes change
        pass
    body = {'plain': [el()], 'loop': [E('o', [('tal:repeat', 'y r')], [el()])],
            'twice': [el(), E('k', [('tal:content', 'structure s')], []), el()]}[wrap]
    nodes = body + [E('w', [('x', '1'), ('tal:content', 't')], [])]
    if '<!--' in f:
        return None
    try:
        sc = scenario(nodes, xml)
    except diff.Rejected as e:
        return {'problem': 'rejected', 'source': e.args[0]}
    names = sorted({p.split()[1] for p in r.split(';')})
    outs = [(n, AV) for n in names] + [('s', (f, Message(f, 'dom'))), ('t', ('T',)), ('r', ('ab',))]
    return judge_envs(sc, outs, rec, strictinsert=strict)


# ---- values that are not strings count by their text
class Str(str):
    pass


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return '<Obj %r>' % self.s


def gen_values():
    for place in PLACES:
        for xml in (False, True):
            for strict in (0, 1):
                for kind in (Str, Obj):
                    for v in ('', 'x', '<b>x</b>', '<b c="1" tal:content="t">x</b>' if not xml else '<b c="1"%s tal:content="t">x</b>' % NS, 'a &amp; b', '<b>', '</b>'):
                        yield place, xml, strict, kind(v)
                for v in (0, 5, 1.5, False, True, (), [1, 'a'], 10 ** 30):
                    yield place, xml, strict, v


def judge_values(case, rec):
    place, xml, strict, v = case
    s = str(v)
    if PLACES[place][3]:
        s = '[%s]' % s
    if strict and not xml and '<b>' in s and '</b>' not in s:
        s += '</b>'
    elif strict and ('<b>' in s) != ('</b>' in s) and 'tal:' not in s:
        s = None
    elif strict:
        s = s.replace(NS, '').replace(' tal:content="t"', '')
    return verify(place, xml, v, s, rec, strict=strict, model=[str(v)])


# ---- every template statement in the markup is inert, also next to attribute statements of the template
INERT = ['tal:define="v t"', 'tal:condition="n"', 'tal:repeat="r r"', 'tal:content="t"', 'tal:replace="t"', 'tal:attributes="id t"',
         'tal:omit-tag=""', 'tal:on-error="t"', 'tal:script="p"', 'tal:bad="t"', 'metal:define-macro="m"', 'metal:use-macro="m"',
         'metal:extend-macro="m"', 'metal:define-slot="m"', 'metal:fill-slot="m"', 'metal:bad="t"', 'i18n:domain="other"', 'i18n:source="fr"',
         'i18n:target="de"', 'i18n:translate=""', 'i18n:translate="msg"', 'i18n:name="n"', 'i18n:attributes="id"', 'i18n:attributes="id msg"',
         'i18n:data="t"', 'i18n:ignore=""', 'i18n:bad="t"']
OUTER = ['', ' tal:attributes="id k"', ' i18n:attributes="id"', ' i18n:attributes="id msg"', ' tal:attributes="id k" i18n:attributes="id"',
         ' tal:attributes="title k; id k" i18n:attributes="title"', ' tal:define="v k" tal:attributes="id v:v"', ' tal:attributes="id m"']
MARKUP = ['<b id="1" %s>x</b>', '<b id="1" %s/>', '<b %s><i id="1" %s>x</i></b>', 'x<b %s>y</b><b id="1" %s/>']


def gen_inert():
    for a in INERT:
        for b in [''] + INERT:
            for outer in OUTER:
                yield a, b, outer


def judge_inert(case, rec):
    a, b, outer = case
    if a.split('=')[0] == b.split('=')[0]:
        return
    for xml in (False, True):
        for markup in MARKUP:
            if not xml and '/>' in markup and ('tal:content' in a + b or 'i18n:translate' in a + b):
                continue
            for around in ('%s', '<o i18n:domain="dom" tal:define="v t">%s</o>'):
                src = around % ('<q id="0"%s tal:replace="structure s">old</q>' % outer) + SUFFIX
                res = []
                for dirs in ('', (NS + ' ' if xml else '') + a + ' ' + b):
                    env = {'s': markup.replace('%s', dirs), 't': 'T<', 'k': 'K', 'z': '<b>Z</b>', 'm': Message('MM', 'mdom'), 'p': '', 'r': 'ab'}
                    p, m = program(src, xml)
                    e = Engine(env, translate=lambda i, d, mp, df: '[%s %s]' % (d, i))
                    try:
                        out = real.render(p, m, e)
                    except real.DOCUMENTED as x:
                        out = 'refused: %s' % x
                    res.append((out, e.trace))
                rec.execution([src, env['s'], xml], res[0][1], final=res[0][0])
                if res[0] != res[1]:
                    return {'problem': 'a template statement in the inserted markup has an effect', 'source': src, 'structure': env['s'],
                            'xml': xml, 'expected': res[0], 'actual': res[1]}


# ---- verbatim without strict insertion
CH = ['<', '>', '/', 'b', ' ', '&', ']', '!', '-', '\n', 'é', '"']


def gen_verbatim(n):
    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(CH, repeat=k):
                yield ''.join(t)
        for toks in itertools.product(HTOK[:9], repeat=2):
            yield htmlmodel.source(toks)[0]
    return gen


def judge_verbatim(s, rec):
    for xml in (False, True):
        for place in ('content', 'replace', 'error', 'i18n'):
            body = '[%s]' % s if place == 'i18n' else s
            d = verify(place, xml, s, body, rec, strict=0)
            if d:
                return d


# ---- arbitrary text, strict: refused or inserted; never anything else, and what follows is unchanged
CH2 = ['<', '>', '/', 'b', ' ', '&', ';', ']', '!', '-', '?', '=', '"', '[', 'x']


def gen_any(n):
    def gen():
        for k in range(0, n + 1):
            for t in itertools.product(CH2, repeat=k):
                yield ''.join(t)
        for k in range(0, n):
            for t in itertools.product(CH2, repeat=k):
                for pre in ('<b tal:content="t" ', '<![', '<!-', '</b', '<b>', '<tal:x '):
                    yield pre + ''.join(t)
    return gen


def judge_any(s, rec):
    env = {'s': s, 't': 'T<', 'k': 'K', 'z': '<b>Z</b>', 'h': 'H'}
    for xml in (False, True):
        src = '<q tal:content="structure s">old</q>'
        out, err, trace = render(src + SUFFIX, xml, env)
        ok = wellformed(s) if xml else None
        rec.execution([s, xml], final=err or 'ok')
        d = {'structure': s, 'xml': xml, 'actual': err or out}
        if err is None:
            if calls(trace) != [('struct', 's')] + SUFFIX_TRACE:
                return dict(d, problem='structure caused engine calls', calls=calls(trace))
            if not (out.startswith('<q>') and out.endswith('</q>' + SUFFIX_OUT[xml])):
                return dict(d, problem='rest of the template changed')
            if xml and not ok:
                return dict(d, problem='malformed structure was not refused')
            if xml and not wellformed(out):
                return dict(d, problem='output is not well-formed')
        else:
            if err != 'STRUCTURE' or calls(trace) != [('struct', 's')]:
                return dict(d, problem='failed otherwise than by refusing', calls=calls(trace))
            if xml and ok:
                return dict(d, problem='well-formed structure was refused')
            out, err, trace = render('<q tal:on-error="h" tal:content="structure s">old</q>' + SUFFIX, xml, env)
            rec.traces += 1
            if out != '<q>H</q>' + SUFFIX_OUT[xml] or calls(trace) != [('struct', 's'), ('text', 'h')] + SUFFIX_TRACE:
                return dict(d, problem='rest of the template changed after the refusal was handled', actual=err or out)


# ---- everything that can follow an insertion
AFTER = ['<q/>', '<q />x', '<q></q>', '<br/>', '<q tal:attributes="a k"/>', '<q tal:content="t"/>', '<tal:q/>', '<q tal:omit-tag="o"/>',
         '<q tal:repeat="y r"><i/></q>', '<q tal:define="x k" tal:content="v:x"></q>', '<q tal:on-error="k"><i tal:content="boom"/></q>',
         '<q metal:define-macro="m"><i metal:define-slot="a"/></q>', '<q metal:use-macro="lib"><i metal:fill-slot="a" c="d"/></q>',
         '<q i18n:translate=""><i i18n:name="n"/></q>', '<q i18n:translate="x"/>', '<q a="1" i18n:attributes="a"/>',
         '<q tal:replace="structure z"/>', '<q tal:replace="structure z" tal:attributes="k k"/>', '<Q A="1"/>']
VALS = ['', 'x', '<b/>', '<b></b>', '<b id="1">x</b>', '<br/>', '<x><y/></x>z', '<b', '</b>', 'x]']
LIBSRC = '<e metal:define-macro="lib"><f/><g metal:define-slot="a"/></e>'


def gen_after(n):
    def gen():
        for xml in (False, True):
            for strict in (0, 1):
                for place in ('content', 'replace', 'error', 'i18n', 'attrs', 'caught', 'inloop', 'slot'):
                    for v in VALS:
                        for k in range(1, n + 1):
                            for aft in itertools.permutations(AFTER, k):
                                yield xml, strict, place, v, aft
    return gen


PL = dict((k, v[0]) for k, v in PLACES.items())
PL['attrs'] = '<q tal:replace="structure s" tal:attributes="id k">old</q>'
PL['caught'] = '<q tal:on-error="string"><i tal:attributes="k k"><j tal:content="structure s"/><j tal:content="boom"/></i></q>'
PL['inloop'] = '<q tal:repeat="y r" tal:content="structure s"/>'
PL['slot'] = '<q metal:use-macro="lib"><p metal:fill-slot="a" tal:content="structure s"/></q>'


def judge_after(case, rec):
    xml, strict, place, v, aft = case
    after = ''.join(aft)
    src = PL[place] + '<mark/>' + after
    lib = program(LIBSRC, xml)[1]['lib']

    def go(val):
        p, m = program(src, xml)
        e = Engine({'s': val, 't': 'T<', 'k': 'K', 'z': '<b/>', 'boom': Raise(), 'r': 'ab', 'o': 0, 'string': 'H'}, {'lib': lib})
        try:
            out = real.render(p, m, e, strictinsert=strict)
        except real.DOCUMENTED:
            return None
        mark = '<mark/>' if xml else '<mark />'
        i = out.index(mark)
        j = next((n for n, ev in enumerate(e.trace) if ev[:2] == ('struct', 's')), 0)
        return out[i:], [ev for ev in e.trace if ev[1] not in ('s', 'r', 'boom', 'string') and ev[0] not in ('next', 'error')]
    a = go(v)
    b = go(None)
    rec.execution([src, v, strict, xml], b[1])
    rec.traces += 1
    if a is None:
        if not strict and place != 'attrs':
            return {'problem': 'structure was refused without strict insertion', 'source': src, 'structure': v, 'xml': xml}
        return
    if a[0] != b[0]:
        return {'problem': 'what follows the structure is rendered differently', 'source': src, 'structure': v, 'xml': xml,
                'strict': strict, 'expected': b[0], 'actual': a[0]}


def spaces(tier):
    deep = tier == 'thorough'
    every = tuple(PLACES)
    st = dress.has('scont', 'srepl')
    return [
        dress.space(5 if deep else 4, st, ' with structure, strict'),
        dress.space(5 if deep else 4, st, ' with structure, not strict', strictinsert=0),
        Space('html-every-place', gen_html(3 if deep else 2, every), judge_html, 'token sequences <=%d of 14 at 7 places' % (3 if deep else 2)),
        Space('html-sequences', gen_html(5 if deep else 4, ('content',)), judge_html, 'all sequences of <=%d of 14 HTML tokens' % (5 if deep else 4)),
        Space('xml-every-place', gen_xml(3 if deep else 2, every), judge_xml, 'token sequences <=%d of 18 at 7 places' % (3 if deep else 2)),
        Space('xml-sequences', gen_xml(4 if deep else 3, ('content', 'i18n')), judge_xml, 'all sequences of <=%d of 18 XML tokens' % (4 if deep else 3)),
        Space('attributes', gen_first, judge_first, '11 structures x 6 attribute statements x all values x strictness x loops'),
        Space('inert', gen_inert, judge_inert, 'every one or two of %d statements in 4 markups x %d attribute statements of the template x 2 surroundings'
              % (len(INERT), len(OUTER))),
        Space('values', gen_values, judge_values, 'strings of a derived class, objects and numbers at 7 places, strict and not'),
        Space('verbatim', gen_verbatim(4 if deep else 3), judge_verbatim, 'all strings of <=%d of 12 characters, not strict' % (4 if deep else 3)),
        Space('any-text', gen_any(5 if deep else 4), judge_any, 'all strings of <=%d of 15 characters (bare and behind 6 prefixes), strict' % (5 if deep else 4)),
        Space('after', gen_after(2), judge_after, '8 places x 10 structures x every 1-2 of 19 following constructs x strictness, HTML and XML'),
    ]
