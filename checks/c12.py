"""C12: a translation unit is looked up with its message id, mapping and domain."""
from mc.engine import Vary
from mc.real import Message

from . import dress, libs, terms
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['translation results are strings',
               'a source or target language declared without a domain declares the default domain',
               'not in the space: i18n:name inside a translated tal:content element whose value is default; '
               'pre elements whose own tag is omitted; translate on HTML void elements']
ALPHA = ('unit', 'unid', 'unda', 'name', 'dom', 'txt', 'itx', 'mtx', 'loop', 'omit', 'iat', 'isx', 'use', 'fill')
_bases = {}


def base(lib, xml):
    if (lib, xml) not in _bases:
        _bases[lib, xml] = scenario(libs.libnodes(lib, False), xml)
    return _bases[lib, xml]


def gen_terms(maxn):
    def gen():
        for n in range(1, maxn + 1):
            for f in terms.forests(n, ALPHA, 2, False, False):
                k = libs.kinds(f)
                ls = list(libs.LIBS) if 'use' in k else ['slot']
                for lib in ls:
                    yield f, lib
    return gen


def judge_terms(case, rec):
    f, lib = case
    for xml in (False, True):
        try:
            sc = scenario([('page', terms.page(f))], xml, base=base(lib, xml))
        except diff.Rejected as e:
            return rejected(e)
        for opt in ({}, {'interpolate': 0}):
            d = diff.check(sc, Auto(), rec, **opt)
            if d:
                return d


# ---- the text of a message
PARTS = ['x', ' ', '\n', '  y', '\t', '&amp;', '&nbsp;', '<b>z</b>', '<br>', '$', '${n}', '<!-- c -->',
         'NAME', 'NAME2', 'TAL', 'PRE', 'NPRE', 'É']


def part(p, i):
    if p == 'NAME':
        return E('b', [('i18n:name', 'n')], [' v  w '])
    if p == 'NAME2':
        return E('b', [('i18n:name', 'm'), ('tal:replace', 't')], ['v'])
    if p == 'TAL':
        return E('b', [('tal:content', 't')], ['v'])
    if p == 'PRE':
        return E('pre', (), [' a  b\n'])
    if p == 'NPRE':
        return E('pre', [('i18n:name', 'p')], [' a  b\n'])
    return T(p)


def gen_text(n):
    def gen():
        for k in range(0, n + 1):
            for ps in itertools.product(PARTS, repeat=k):
                for tag in ('p', 'pre'):
                    yield ps, tag
    return gen


def judge_text(case, rec):
    ps, tag = case
    for xml in (False, True):
        if xml and ('<br>' in ps or '&nbsp;' in ps):
            continue
        for mid in ('', 'the-id'):
            nodes = [E('div', (), [E(tag, [('i18n:translate', mid)], [part(p, i) for i, p in enumerate(ps)]), T(' end')])]
            try:
                sc = scenario(nodes, xml)
            except diff.Rejected as e:
                return rejected(e)
            for t in (' T  <t> ', None):
                d = diff.check(sc, {'t': t}, rec)
                if d:
                    return d


# ---- every kind of white space
WHITE = [chr(c) for c in range(0x10000) if chr(c).isspace()] + ['\u200b', '\u2060', '\ufeff', '\x00', '\x01', '\x08', '\x7f', '\u180e']
SHAPES = ['a%sb', '%sa', 'a%s', '%s', 'a %sb', 'a%s%s\nb', '%s%s']
PLACES = ['text', 'value', 'named', 'both', 'attr']


def gen_white():
    for c in WHITE:
        for sh in SHAPES:
            for pl in PLACES:
                yield c, sh, pl


def judge_white(case, rec):
    c, sh, pl = case
    s = sh.replace('%s', c)
    for xml in (False, True):
        if xml and (c < ' ' and c not in '\t\n') or c == '\r':
            continue
        for tag in ('p', 'pre'):
            if pl == 'text':
                k = [T(s)]
            elif pl == 'value':
                k = [T('x'), E('b', [('tal:content', 't')]), E('b', [('tal:replace', 't')])]
            elif pl == 'named':
                k = [T('x'), E('b', [('i18n:name', 'n')], [T(s)]), E('b', [('i18n:name', 'm'), ('tal:replace', 't')])]
            elif pl == 'both':
                k = [T(s), E('b', [('i18n:name', 'n')], [T(s)]), T(s)]
            else:
                k = [E('b', [('tal:attributes', 'q t')], ['y'])]
            try:
                sc = scenario([E('div', (), [E(tag, [('i18n:translate', '')], k), T(' end')])], xml)
            except diff.Rejected as e:
                return rejected(e)
            d = diff.check(sc, {'t': s}, rec)
            if d:
                return d


# ---- domains at every place
def gen_domains():
    for doms in itertools.product(('', 'own', 'default', 'target'), repeat=6):
        for unit in range(5):
            for xml in (False, True):
                yield doms, unit, xml


def judge_domains(case, rec):
    doms, unit, xml = case

    def at(i):
        return {'': [], 'own': [('i18n:domain', 'D%d' % i)], 'default': [('i18n:domain', 'default')], 'target': [('i18n:target', 'de')]}[doms[i]]

    def u(i):
        a = [[('i18n:translate', '')], [('i18n:translate', 'id')], [('tal:content', 't'), ('i18n:translate', '')],
             [('title', 'tt'), ('i18n:attributes', 'title')], [('tal:content', 'msg')]][unit]
        return E('q', a, ['u%d' % i])
    libn = [E('lib', at(0), [
        E('m', [('metal:define-macro', 'm')] + at(1), [
            u(1), E('s', [('metal:define-slot', 'a')] + at(2), [u(2)]), u(3)])])]
    pg = [E('pg', at(3), [
        u(4), E('w', at(4), [
            u(5), E('x', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')] + at(5), [u(6)])]), u(7),
            E('x', [('metal:use-macro', 'm')])]), u(8)]), u(9)]
    try:
        sc = scenario([('lib', libn), ('page', pg)], xml)
    except diff.Rejected as e:
        return rejected(e)
    return diff.check(sc, {'t': 'T', 'msg': Message('mm', 'md', 'mdef')}, rec)


# ---- a unit or a name together with other statements on its element
KINDS = ['def', 'cond', 'rep', 'omit', 'omit0', 'att', 'cont', 'scont', 'repl', 'srepl', 'err']
ROLE = [[('i18n:translate', '')], [('i18n:translate', 'mid')], [('i18n:name', 'n')],
        [('i18n:name', 'n'), ('i18n:translate', '')], [('i18n:name', 'n'), ('i18n:translate', 'mid')],
        [('i18n:translate', 'mid'), ('i18n:data', 'z')], [('i18n:name', 'n'), ('i18n:domain', 'dd')],
        [('i18n:domain', 'dd'), ('i18n:translate', '')]]


def gen_same(maxk):
    def gen():
        for sub in subsets(KINDS, 0, maxk):
            if {'omit', 'omit0'} & set(sub) and {'repl', 'srepl'} & set(sub):
                continue
            for r in range(len(ROLE)):
                for form in ('', '/', 'e', 'tal'):
                    yield sub, r, form
    return gen


def judge_same(case, rec):
    sub, r, form = case
    role = ROLE[r]
    ks = dict(role)
    if ks.get('i18n:translate') and {'cont', 'scont', 'repl', 'srepl'} & set(sub):
        return          # explicit id with content is not allowed
    kids = [] if form in ('/', 'e') else [T(' k '), E('i', (), ['l']), T(' m')]
    for xml in (False, True):
        a = attrs_of(sub, 0) + role
        if form == 'tal':
            e = E('tal:x', [(k[4:] if k.startswith('tal:') else k, v) for k, v in a], kids)
        else:
            e = E('b', [('id', 'i')] + a, kids, '/' if form == '/' else '')
        nodes = [E('p', [('i18n:translate', '')], [T('x '), e, T(' y '), E('b', [('i18n:name', 'o')], ['O'])]),
                 E('p', [('i18n:translate', '')], ['z'])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as ex:
            return rejected(ex)
        d = judge_envs(sc, outcomes(sub, 0) + [('z', ({'dat': 'Z'},))], rec)
        if d:
            return d


# ---- several names in one unit: the same name again, names inside loops, conditions and names
VALS = ['A', '', None, 'A B', '${n}', '<', DEFAULT]


def gen_names(n):
    def gen():
        for k in range(1, n + 1):
            for ps in itertools.product(('n', 'm', 'nloop', 'nrepl', 'nunit', 'ncond', 'nerr', 'txt', 'nn'), repeat=k):
                for v in range(len(VALS)):
                    yield ps, v
    return gen


def named(p, i):
    t = 't%d' % i
    if p == 'txt':
        return E('b', [('tal:content', t)], ['x'])
    if p == 'm':
        return E('b', [('i18n:name', 'm')], [E('i', [('tal:replace', t)], ['d'])])
    if p == 'n':
        return E('b', [('i18n:name', 'n'), ('tal:content', t)], ['d%d' % i])
    if p == 'nloop':
        return E('b', [('i18n:name', 'n'), ('tal:repeat', 'y r')], [E('i', [('tal:content', 'v:y')]), E('i', [('tal:replace', t)], ['d'])])
    if p == 'nrepl':
        return E('b', [('i18n:name', 'n'), ('tal:replace', t)], ['d%d' % i])
    if p == 'nunit':
        return E('b', [('i18n:name', 'n'), ('i18n:translate', '')], [T('in '), E('i', [('i18n:name', 'n'), ('tal:content', t)], ['d'])])
    if p == 'ncond':
        return E('b', [('i18n:name', 'n'), ('tal:condition', 'c')], ['never'])
    if p == 'nerr':
        return E('b', [('i18n:name', 'n'), ('tal:on-error', t)], [T('lost'), E('i', [('tal:content', 'boom')])])
    return E('tal:x', [('i18n:name', 'n')], [E('i', [('i18n:translate', 'q')], [E('s', [('i18n:name', 'm')], [E('i', [('tal:replace', t)], ['d'])])])])


def judge_names(case, rec):
    ps, v = case
    for xml in (False, True):
        kids = []
        for i, p in enumerate(ps):
            kids += [T(' %d ' % i), named(p, i)]
        nodes = [E('div', [('tal:repeat', 'w r')], [E('p', [('i18n:translate', '')], kids)]),
                 E('q', [('i18n:translate', '')], ['z ', E('b', [('i18n:name', 'm')], ['M'])])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as ex:
            return rejected(ex)
        env = {'r': '12', 'c': 0, 'boom': Raise()}
        for i in range(len(ps)):
            env['t%d' % i] = VALS[v] if i == 0 else Vary('T%d%%s' % i)
        for opt in ({}, {'interpolate': 0}):
            d = diff.check(sc, env, rec, **opt)
            if d:
                return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.space(5 if deep else 4, dress.has('unit', 'domain', *dress.I18N), ' with an I18N role'),
        Space('same-element', gen_same(3 if deep else 2), judge_same,
              '8 unit/name roles x subsets of <=%d TAL statements x 4 element forms x every outcome' % (3 if deep else 2)),
        Space('names', gen_names(4 if deep else 3), judge_names,
              'units in a loop with <=%d of 9 named parts, most of them called alike, x 7 values' % (4 if deep else 3)),
        Space('domains', gen_domains, judge_domains, 'a domain, the default domain, a target language or nothing at each of 6 places x 5 kinds of lookup at 9 places'),
        Space('white-space', gen_white, judge_white, '%d characters that are or look like white space x 7 shapes x 5 places, in p and pre' % len(WHITE)),
        Space('message-text', gen_text(3), judge_text, 'units made of <=3 of 18 parts, in p and pre, explicit and implicit id'),
        Space('terms', gen_terms(4 if deep else 3), judge_terms,
              'all templates of <=%d of 14 constructors, 4 macro libraries, with and without interpolation' % (4 if deep else 3)),
    ]
