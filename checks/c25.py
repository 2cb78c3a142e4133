"""C25: with processing switched off, templates are shown as written."""
import re

from mc import ast, real
from mc.engine import Engine

from . import dress, terms
from .lib import *
from .lib import rejected
from .libs import LIBS, libnodes
from .terms import Auto

ASSUMPTIONS = ['server-side scripts are compared with the model only (they are run whatever the switches)',
               'translation units and i18n:name are not in the space (translation is independent of TAL processing)',
               'the source is written with double quotes and single spaces between attributes']
ALPHA = ('use', 'fill', 'txt', 'stx', 'att', 'tal', 'defl', 'defg', 'loop', 'cond', 'omit', 'err', 'iat', 'dom', 'mtx')
TAGRE = re.compile(r'<(/?)([A-Za-z][\w:.-]*)((?:\s+[^\s=>/]+(?:="[^"]*")?)*)\s*(/?)>')
ATTRE = re.compile(r'\s+([^\s=>/]+)(?:="[^"]*")?')
LANGS = ('tal', 'metal', 'i18n')


def strip(text):
    """Remove directives and tags of template namespaces from shown source."""
    def tag(m):
        slash, name, atts, end = m.groups()
        if name.split(':')[0] in LANGS:
            return ''
        keep = ''.join(a.group() for a in ATTRE.finditer(atts)
                       if not (a.group(1).split(':')[0] in LANGS or
                               a.group(1) in ('xmlns:tal', 'xmlns:metal', 'xmlns:i18n')))
        sp = ' ' if end and m.group().endswith(' />') else ''
        return '<' + slash + name + keep + sp + end + '>'
    return TAGRE.sub(tag, text)


def written(src, xml):
    """The source in the renderer's spelling of empty tags."""
    src = re.sub(r' ?/>', '/>', src)
    return re.sub(r'<([^\s/>]+)((?: [^<>]*[^/<>])?)></\1>', r'<\1\2/>', src)


def run(prog, sc, **kw):
    eng = Engine(Auto(), sc.im)
    return diff.run(lambda: real.render(*prog, eng, **kw), eng)


def check(sc, rec, reread=True):
    xml = sc.xml
    src = sc.src[sc.page]
    prog = sc.prog[sc.page]

    def bad(problem, **kw):
        return dict(kw, problem=problem, source=dict(sc.src))
    # 1. everything off, directives shown
    a = run(prog, sc, tal=0, metal=0)
    rec.execution([src, 'shown'], final=a.text)
    if a.error or written(a.text, xml) != written(src, xml):
        return bad('source not reproduced', expected=written(src, xml), actual=a.error or a.text)
    if a.trace:
        return bad('something was evaluated', calls=a.trace)
    orig = run(prog, sc)
    # 2. the result is an equivalent template
    try:
        p2 = real.compile_source(a.text, xml, 'page')
    except Exception as e:
        return bad('shown template does not compile: %s' % e, shown=a.text)
    b = run(p2, sc)
    rec.execution(orig.trace, final=orig.error or orig.text)
    if (b.error, b.trace) != (orig.error, orig.trace) or (orig.error is None and b.text != orig.text):
        return bad('shown template is not equivalent', expected=orig.error or orig.text, actual=b.error or b.text)
    # 3. directives hidden
    c = run(prog, sc, tal=0, metal=0, showtal=0)
    rec.execution([src, 'hidden'], final=c.text)
    want = hollow(strip(a.text), xml)
    if c.error or c.trace or hollow(c.text, xml) != want:
        return bad('document without directives differs', expected=want, actual=c.error or c.text, calls=c.trace)
    # 4. the model agrees
    for kw in (dict(tal=0, metal=0), dict(tal=0, metal=0, showtal=0), dict(showtal=1), dict(metal=0), dict(metal=0, showtal=1), dict(tal=0, showtal=0)):
        d = diff.check(sc, Auto(), rec, **kw)
        if d:
            return d
    # 5. showing directives while processing only adds them
    if orig.error is None:
        s = run(prog, sc, showtal=1)
        rec.traces += 1
        if s.error or s.trace != orig.trace:
            return bad('showing directives changes what is evaluated', expected=orig.trace, actual=s.error or s.trace)
        if hollow(strip(s.text), xml) != hollow(orig.text, xml):
            return bad('showing directives changes the document', expected=orig.text, actual=s.text)


def hollow(s, xml):
    # an empty element may be minimized
    return written(s, xml)


def gen_terms(n):
    def gen():
        for lib in ('slot', 'use'):
            for k in range(0, n + 1):
                for f in terms.forests(k, ALPHA, 2, False, False):
                    yield lib, f
    return gen


_base = {}


def judge_terms(case, rec):
    lib, f = case
    for xml in (False, True):
        if (lib, xml) not in _base:
            _base[lib, xml] = scenario(libnodes(lib, rich=False), xml)
        try:
            sc = scenario([('page', terms.page(f))], xml, base=_base[lib, xml])
        except diff.Rejected as e:
            return rejected(e)
        d = check(sc, rec)
        if d:
            return d


# ---- every combination of statements on one element
KINDS = ['def', 'def2', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl', 'srepl', 'err']
SHAPE = {'el': ('q', ''), 'self': ('q', '/'), 'tal': ('tal:q', ''), 'talself': ('tal:q', '/'), 'void': ('br', 'v'), 'i18n': ('i18n:q', '')}
META = [(), (('metal:define-macro', 'mm'),), (('metal:use-macro', 'none'),), (('i18n:domain', 'dd'),), (('i18n:attributes', 'b'),)]


class EnvOf(dict):
    pass


def gen_single(n):
    def gen():
        for sub in subsets(KINDS, 0, n):
            for shape in SHAPE:
                for meta in META:
                    for stat in ((), (('id', 'i'), ('b', 'c&d')), (('class', '<"'), ('checked', 'checked'))):
                        yield sub, shape, meta, stat
    return gen


class Env(Auto):
    pass


def judge_single(case, rec):
    sub, shape, meta, stat = case
    tag, form = SHAPE[shape]
    if stat and ':' in tag:
        return
    if form == 'v' and any(STM[k][0] == 'tal:content' for k in sub):
        return
    if 'repl' in ''.join(sub) and ('omit' in sub):
        return                  # replace with a conditional omit-tag: see C07
    if meta and meta[0][0] == 'i18n:attributes' and (not stat or stat[0][0] != 'id' or 'att' in sub):
        return
    attrs = list(stat) + list(meta) + attrs_of(sub, 1)
    for xml in (False, True):
        if xml and form == 'v':
            continue
        nodes = [E('p', (), [T('\n '), E(tag, attrs, ['k', E('i', (), ['z'])] if form == '' else [], form), T('\nx')])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as e:
            return rejected(e)
        sc.rm['none'] = sc.im['none'] = DEFAULT
        d = check(sc, rec)
        if d:
            return d


# ---- directives written without a value (HTML), which are shown as they are written
BARE = ['tal:omit-tag', 'i18n:translate', 'i18n:domain', 'i18n:name', 'i18n:source', 'i18n:target']
AROUND = ['', 'id="i"', 'checked', 'tal:content="t"', 'tal:attributes="id t"', 'tal:condition="t"', 'metal:define-macro="m"']


def gen_bare():
    for b in BARE:
        for b2 in [''] + BARE:
            for x in AROUND:
                for y in AROUND:
                    if x == y and x or b2 == b:
                        continue
                    for form in ('<q %s>k</q>', '<q %s/>', '<br %s>', '<tal:q %s>k</tal:q>'):
                        yield b, b2, x, y, form


def judge_bare(case, rec):
    b, b2, x, y, form = case
    if form[:3] == '<br' and 'content' in x + y or form[:4] == '<tal' and ('=' in x + y or 'checked' in x + y):
        return
    src = '<p>a %s b</p>' % (form % ' '.join(a for a in (x, b, b2, y) if a))
    prog = real.compile_source(src, False, 'page')
    for kw in (dict(tal=0, metal=0), dict(tal=0, metal=0, showtal=0)):
        eng = Engine(Auto(), {})
        o = diff.run(lambda: real.render(*prog, eng, **kw), eng)
        want = src if 'showtal' not in kw else strip(src)
        rec.execution([src, len(kw)], final=want)
        if o.error or o.trace or written(o.text, False) != written(want, False):
            return {'problem': 'directive without a value', 'options': kw, 'source': src, 'expected': want, 'actual': o.error or o.text, 'calls': o.trace}


# ---- dressed elements
OPTIONS = (dict(tal=0, metal=0), dict(tal=0, metal=0, showtal=0), dict(showtal=1), dict(metal=0), dict(metal=0, showtal=1), dict(tal=0, showtal=0))


def judge_dressed(fs, rec):
    for sc, es in dress.scenarios(fs, True):
        for env in (es[0], es[-1]):
            for kw in OPTIONS:
                d = diff.check(sc, env, rec, **kw)
                if d:
                    d['features'] = repr(fs)
                    return d
    if any(x in dress.UNITS or x in ('name', 'unit', 'scr', 'script') for k, x in fs):
        return
    for sc, es in dress.scenarios(fs, True, i18n=False):
        d = check(sc, rec)
        if d:
            d['features'] = repr(fs)
            return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('dressed', lambda: dress.combos(0, 4 if deep else 3), judge_dressed, dress.WHAT % (4 if deep else 3, '')),
        Space('single', gen_single(12 if deep else 4), judge_single, 'all sets of <=%d TAL statements x 6 element kinds x 5 companions x 3 static attribute sets'
              % (12 if deep else 4)),
        Space('bare', gen_bare, judge_bare, 'every one or two of 6 directives without a value between every two of 7 attributes x 4 forms'),
        Space('terms', gen_terms(4 if deep else 3), judge_terms, 'all pages of <=%d constructors out of 15 with macro libraries' % (4 if deep else 3)),
    ]
