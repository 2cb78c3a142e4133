"""C16: every evaluation is announced with its own source file, line and column."""
from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['templates that supply macros or fillers are compiled with a source file name',
               'the position handed to the error information object is not part of the property']
ALPHA = ('txt', 'att', 'loop', 'err', 'defl', 'unit', 'unda', 'name', 'use', 'fill', 'stx', 'tal', 'omit', 'cond')
_bases = {}


def base(lib, xml, sep):
    if (lib, xml, sep) not in _bases:
        _bases[lib, xml, sep] = scenario(libs.libnodes(lib), xml, attr_sep=sep)
    return _bases[lib, xml, sep]


def every(sc, rec, **opt):
    n = sc.expect(Auto(), **opt).eng.nevals
    for k in range(0, n + 1):
        d = diff.check(sc, Auto(), rec, output=False, where=True, failpos=True, fail_at=(k,) if k else (), **opt)
        if d:
            return d


def gen_terms(maxn):
    def gen():
        for n in range(1, maxn + 1):
            for f in terms.forests(n, ALPHA, 2, False, False):
                ls = list(libs.LIBS) if 'use' in libs.kinds(f) else ['slot']
                for lib in ls:
                    yield f, lib
    return gen


def judge_terms(case, rec):
    f, lib = case
    for xml, sep in ((False, '\n  '), (True, ' ')):
        try:
            sc = scenario([('page', terms.page(f))], xml, base=base(lib, xml, sep), attr_sep=sep)
        except diff.Rejected as e:
            return rejected(e)
        d = every(sc, rec)
        if d is None and 'use' in libs.kinds(f):
            d = every(sc, rec, tal=0)
        if d:
            return d


# ---- layout: where the element starts
LEAD = ['', 'x', '\n', 'x\n\n ', '<!-- a\n b -->', '\t\t', 'é\n é', '<br>', '<p title="a\nb">t</p>', '&amp;\n&lt;',
        '<?pi a\n?>', '\n\t', '\n \t \t', 'x\t', '\r\n  ', '\n\n\n   ', '\n<i\n>\n</i\n>', '<!DOCTYPE x>\n', '<p>a\n<p>b\n']
KINDS = ['def', 'cond', 'rep', 'omit', 'att', 'cont', 'srepl', 'err']
SEPS = [' ', '\n\t', '  \n\n ']


def gen_layout():
    for lead in LEAD:
        for mid in LEAD:
            for sep in SEPS:
                for k in KINDS:
                    for xml in (False, True):
                        if xml and ('<br>' in lead + mid or '<p>' in lead + mid or '<!D' in lead + mid):
                            continue
                        if '<p' in mid and ('<p>' in lead or '<p>' in mid):
                            continue
                        yield lead, mid, sep, k, xml


def judge_layout(case, rec):
    lead, mid, sep, k, xml = case
    nodes = [T(lead), E('z', attrs_of([k], 0) + [('id', 'i')], [
        T(mid), E('q', [('id', 'j'), ('tal:content', 't')]), T(mid)]), T(mid), E('z', [('tal:content', 't')])]
    if '<p>' in lead or '<p>' in mid:
        nodes = [E('div', (), nodes)]
    try:
        sc = scenario(nodes, xml, attr_sep=sep)
    except diff.Rejected as e:
        return rejected(e)
    return every(sc, rec)


# ---- statements on the outermost element, from the very first character on
HEAD = ['', '\n', '\n\n', '<!--c-->', '<!--\n-->\n', '<?pi x?>', '<?xml version="1.0"?>', '<?xml version="1.0"?>\n', '<!DOCTYPE z>', '<!DOCTYPE z>\n  ']


def gen_root():
    for head in HEAD:
        for n in (1, 2, 3):
            for ks in itertools.combinations(KINDS + ['tr', 'iat'], n):
                if {'cont', 'srepl'} <= set(ks) or {'omit', 'srepl'} <= set(ks):
                    continue
                for xml in (False, True):
                    yield head, ks, xml


def judge_root(case, rec):
    head, ks, xml = case
    a = attrs_of([k for k in ks if k in KINDS], 0)
    for k in ks:
        if k in dress.I18N:
            a = a + dress.I18N[k]
    nodes = [T(head), E('z', a, [T(' k'), E('q', [('tal:content', 't')]), T('\n'), E('i', [('tal:attributes', 'id t')])])]
    for sep in (' ', '\n'):
        try:
            sc = scenario(nodes, xml, attr_sep=sep, bare=True)
        except diff.Rejected as e:
            return rejected(e)
        d = every(sc, rec)
        if d:
            return d


# ---- positions after calls: macros in other files, slots, fillers, with statements before and after
def gen_calls():
    for a, b, c, d in itertools.product(KINDS, repeat=4):
        yield a, b, c, d


def judge_calls(case, rec):
    a, b, c, d = case

    def build(xml, filler=(d,), **kw):
        libn = [E('lib', (), [T('\n'), E('m', [('metal:define-macro', 'm')] + attrs_of([a], 1), [
            T('\n'), E('s', [('metal:define-slot', 'a')] + attrs_of([b], 2), [E('q', [('tal:content', 't')])]),
            E('q', [('tal:content', 't')])])])]
        pg = [E('pg', attrs_of([c], 3), [
            E('u', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')] + attrs_of(filler, 4), ['z'])]),
            E('q', [('tal:content', 't')])]), E('q', [('tal:content', 't')])]
        return scenario([('lib', libn), ('page', pg)], xml, **kw)
    for xml in (False, True):
        try:
            sc = build(xml)
            r = every(sc, rec) or every(sc, rec, tal=0)
            if d == KINDS[0]:
                # a page that has no file name itself
                r = r or every(build(xml, (), files=('lib',)), rec)
        except diff.Rejected as e:
            return rejected(e)
        if r:
            return r


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.fault_space(4 if deep else 3, None, '', output=False, where=True, failpos=True),
        Space('layout', gen_layout, judge_layout,
              '19x19 surrounding texts x 3 attribute separators x 8 statements; failure at every evaluation'),
        Space('root', gen_root, judge_root,
              'every combination of <=3 of 10 statements on the outermost element, 10 things before it; failure at every evaluation'),
        Space('calls', gen_calls, judge_calls,
              'every statement on macro, slot, page and filler elements (8^4), two files; failure at every evaluation'),
        Space('terms', gen_terms(4 if deep else 3), judge_terms,
              'all templates of <=%d of 14 constructors, 4 macro libraries in another file; failure at every '
              'evaluation' % (4 if deep else 3)),
    ]
