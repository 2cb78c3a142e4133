"""C06: attribute statements set, keep, drop and translate exactly the named ones."""
from mc.real import Message
from mc.ref import BOOLEAN, Reject

from . import dress
from .lib import *
from .lib import rejected

ASSUMPTIONS = ['a translation service may have no translation, but does not fail']
MSG = Message('m&', 'dom', 'def')
VALUES = ('V', None, DEFAULT, MSG, '', 5, '<&">')
STATIC = ('absent', 'plain', 'bare', 'special', 'empty')
DYN = (None, 'dyn')
I18N = ('', 'implicit', 'msgid')


class Num:
    def __str__(self):
        return 'num'
    __repr__ = __str__


def spec(names, states):
    """attributes of an element from (static, dyn, i18n) states per name."""
    a, dyn, xl, outs = [], [], [], []
    for n, (st, dy, xi) in zip(names, states):
        if st == 'plain':
            a.append((n, 's-' + n))
        elif st == 'bare':
            a.append((n, None))
        elif st == 'special':
            a.append((n, 'a&b "c" <d> &amp;'))
        elif st == 'empty':
            a.append((n, ''))
        if dy:
            dyn.append('%s d%s' % (n, n))
            outs.append('d' + n)
        if xi:
            xl.append(n if xi == 'implicit' else '%s id-%s' % (n, n))
    if dyn:
        a.append(('tal:attributes', '; '.join(dyn)))
    if xl:
        a.append(('i18n:attributes', ';'.join(xl)))
    return a, outs


def states():
    for st in STATIC:
        for dy in DYN:
            for xi in I18N:
                if dy and xi == 'msgid':
                    continue
                yield st, dy, xi


def run(nodes, xml, outs, rec, untranslated=False, **kw):
    try:
        sc = scenario(nodes, xml, **kw)
    except diff.Rejected as e:
        return rejected(e)
    return judge_envs(sc, outs, rec, **({'translate': lambda *a: None} if untranslated else {}))


def gen_pairs():
    for s1 in states():
        for s2 in states():
            for xml in (False, True):
                if xml and 'bare' in (s1[0], s2[0]):
                    continue
                for form in ('', '/', 'v'):
                    if not (xml and form == 'v'):
                        yield s1, s2, form, xml


def judge_pairs(case, rec):
    s1, s2, form, xml = case
    a, outs = spec(('title', 'alt'), (s1, s2))
    e = E('img' if form == 'v' else 'p', [('id', 'x')] + a + [('zz', 'z')], [] if form else ['k'], form)
    vals = VALUES if len(outs) < 2 else VALUES[:5]
    outs = [(o, vals) for o in outs]
    # also with a service that has no translation
    return run([E('d', (), [e])], xml, outs, rec) or run([E('d', (), [e])], xml, outs, rec, True)


def gen_order():
    """order of statics, of parts, several attributes, case"""
    names = ['b', 'a', 'C', 'd']
    for ns in itertools.permutations(names):
        for stat in itertools.product((0, 1), repeat=4):
            for dyn in itertools.product((0, 1), repeat=4):
                yield ns, stat, dyn


def judge_order(case, rec):
    ns, stat, dyn = case
    statics = [(n, 's' + n) for n, s in zip(sorted(ns, key=str.lower), stat) if s]
    parts = [n for n, d in zip(ns, dyn) if d]
    statics = statics[::-1]
    outs = [('d' + n, (('D' + n),)) for n in parts]
    for xml in (False, True):
        at = list(statics)
        if parts:
            at.insert(len(at) // 2, ('tal:attributes', ';'.join('%s d%s' % (n, n) for n in parts)))
        d = run([E('p', at, ['k'])], xml, outs, rec)
        if d:
            return d
        if any(n.isupper() for n in parts):
            # different case in the statement and on the element
            at = [(k.swapcase() if len(k) == 1 else k, v) for k, v in at]
            d = run([E('p', at, ['k'])], xml, outs, rec)
            if d:
                return d


BOOLVAL = (1, 0, None, DEFAULT, '', 'x', ())


def gen_bool():
    for b in sorted(BOOLEAN) + ['checked2', 'Checked']:
        for st in ('absent', 'plain', 'bare', 'empty'):
            for mode in (('dyn', ''), ('dyn', 'implicit'), (None, 'implicit'), (None, 'msgid')):
                for other in states() if mode == ('dyn', '') else (('plain', None, ''), ('absent', 'dyn', 'implicit')):
                    for xml in (False, True):
                        if not (xml and (st == 'bare' or other[0] == 'bare')):
                            yield b, st, mode, other, xml


def judge_bool(case, rec):
    b, st, mode, other, xml = case
    a, outs = spec((b, 'title'), ((st,) + mode, other))
    return run([E('input', a, (), '/')], xml,
               [(o, BOOLVAL if o == 'd' + b else ('V', DEFAULT)) for o in outs], rec)


# ---- together with other statements, changing values, in loops, macros, units
CTX = ['plain', 'loop', 'repeat', 'omit', 'replace', 'content', 'unit', 'name', 'macro', 'slot', 'filler', 'onerror',
       'cond', 'tal', 'domain']


def gen_ctx():
    few = [('absent', 'dyn', ''), ('plain', 'dyn', ''), ('plain', None, 'implicit'), ('plain', None, 'msgid'),
           ('special', 'dyn', 'implicit'), ('absent', 'dyn', 'implicit'), ('plain', None, ''), ('absent', None, 'msgid')]
    for c in CTX:
        for s1 in few:
            for s2 in few:
                for xml in (False, True):
                    yield c, s1, s2, xml


def judge_ctx(case, rec):
    c, s1, s2, xml = case
    a, outs = spec(('title', 'alt'), (s1, s2))
    if c == 'replace' and any('id-' in v for k, v in a if k == 'i18n:attributes'):
        pass
    extra = {'repeat': [('tal:repeat', 'y r')], 'omit': [('tal:omit-tag', 'o')], 'replace': [('tal:replace', 't')],
             'content': [('tal:content', 't')], 'cond': [('tal:condition', 'o')], 'onerror': [('tal:on-error', 't')],
             'unit': [('i18n:translate', '')], 'domain': [('i18n:domain', 'dd')]}.get(c, [])
    if c == 'tal':
        e = E('tal:p', [(k[4:] if k[:4] == 'tal:' else k, v) for k, v in a if ':' in k], ['k'])
    else:
        e = E('p', a + extra, ['k'])
    nodes = {
        'loop': lambda: [E('d', [('tal:repeat', 'y r')], [e])],
        'name': lambda: [E('d', [('i18n:translate', '')], [T('u '), E('n', [('i18n:name', 'nm')], [e])])],
        'macro': lambda: [E('m', [('metal:define-macro', 'm')], [e]), E('u', [('metal:use-macro', 'm')])],
        'slot': lambda: [E('m', [('metal:define-macro', 'm')], [E('s', [('metal:define-slot', 'a')], [e])]), E('u', [('metal:use-macro', 'm')])],
        'filler': lambda: [E('m', [('metal:define-macro', 'm')], [E('s', [('metal:define-slot', 'a')], ['z'])]),
                           E('u', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')], [e])])],
    }.get(c, lambda: [E('d', (), [e])])()
    vals = [('V', None, DEFAULT, MSG), (Seq('V', None), Seq(None, 'W'), Seq(DEFAULT, 'V', None), MSG)][c in ('loop', 'repeat', 'macro', 'slot')]
    o = [(x, vals) for x in outs] + [('r', ('12',)), ('o', (0, 1)), ('t', ('T',))]
    return run(nodes, xml, o, rec)


# ---- attribute names of every look
NAMES = ['title', 'Title', 'data-x', 'data-X', 'DATA-X', 'x_y', 'X_y', 'v1', 'V1', 'xml:lang', 'xml:LANG', 'a.b', 'A.b', 'onclick',
         'onClick', 'é', 'É', 'checked', 'Checked', 'data-checked', 'checked-x', 'class', 'x-', '-x', '_x', 'X:y']


def gen_names():
    for n1 in NAMES:
        for n2 in NAMES:
            yield n1, n2


def judge_names(case, rec):
    """n1 on the element, n2 in the statement(s)"""
    n1, n2 = case
    for xml in (False, True):
        if xml and (n1[0] == '-' or n2[0] == '-' or n1.startswith('X:') or n2.startswith('X:')):
            continue
        for a in ([('tal:attributes', n2 + ' d')],
                  [('i18n:attributes', n2 + ' mid')],
                  [('tal:attributes', n2 + ' d'), ('i18n:attributes', n2)],
                  [('tal:attributes', n2 + ' d; w e'), ('i18n:attributes', 'w;' + n1 + ' mid')],
                  [('tal:attributes', 'w e; ' + n2 + ' d')],
                  [('tal:attributes', n1 + ' d'), ('i18n:attributes', n2 + ' mid')]):
            for static in ([(n1, 's&')], [], [('id', 'i'), (n1, ''), ('w', 'w')]):
                try:
                    sc = scenario([E('p', static + a, ['k'])], xml)
                except Reject:
                    continue
                except diff.Rejected as e:
                    return rejected(e)
                d = judge_envs(sc, [('d', ('V', None, DEFAULT)), ('e', ('W',))], rec)
                if d:
                    return d


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('names', gen_names, judge_names, '%d x %d attribute names on the element and in the statements' % (2 * (len(NAMES),))),
        dress.space(5 if deep else 4, dress.has('att', 'iat'), ' with an attribute statement'),
        Space('pairs', gen_pairs, judge_pairs, 'two attributes: 5 static forms x dynamic x translation each, 7 value kinds, '
              '3 element forms, HTML and XML'),
        Space('boolean', gen_bool, judge_bool, 'all HTML boolean attributes x 4 static forms x 7 values next to another attribute'),
        Space('order', gen_order, judge_order, '4 attributes: every order of parts x static subset x dynamic subset, upper and lower case'),
        Space('contexts', gen_ctx, judge_ctx, '15 contexts x 8x8 attribute states x values changing between evaluations'),
    ]
