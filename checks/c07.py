"""C07: content, replace and omit-tag produce what the value says."""
from mc.real import Message

from . import dress
from .lib import *
from .lib import rejected

ASSUMPTIONS = ['not in the space: tal:replace with a conditional tal:omit-tag, bare tal:omit-tag without a value, '
               'i18n:translate on HTML void elements']
MSG = Message('m&id', 'dom', 'def')


class Obj:
    def __str__(self):
        return 'o<bj'
    __repr__ = __str__


VALUES = ('T', None, DEFAULT, '', MSG, 7, 'a&<b>"', Obj(), 0)
SMSG = Message('m-id', 'dom', 'def')
SVALUES = ('<u>S</u>', None, DEFAULT, '', SMSG, 7, 'a<br/>b')
FORMS = {
    'kids': lambda tag, a: E(tag, a, [T('k'), E('i', [('tal:content', 'inner')], ['z']), T('l')]),
    'text': lambda tag, a: E(tag, a, ['k &amp; l']),
    'empty': lambda tag, a: E(tag, a, []),
    'self': lambda tag, a: E(tag, a, [], '/'),
    'void': lambda tag, a: E('br', a, [], 'v'),
    'voidself': lambda tag, a: E('br', a, [], '/'),
    'nested': lambda tag, a: E(tag, a, [E(tag, [('tal:omit-tag', 'o1')], [E(tag, (), ['n'])])]),
}
TAGS = ['q', 'tal:x', 'metal:x', 'i18n:x', 'pre']
CONT = [None, ('tal:content', 't'), ('tal:content', 'structure s'), ('tal:replace', 't'), ('tal:replace', 'structure s'),
        ('tal:content', 'text t'), ('tal:replace', 'text  t')]
OMIT = [None, ('tal:omit-tag', ''), ('tal:omit-tag', 'o')]
EXTRA = [(), (('tal:on-error', 'h'),), (('tal:repeat', 'y r'),), (('i18n:translate', ''),), (('tal:attributes', 'title a'),),
         (('tal:condition', 'c'),), (('tal:define', 'x d'),), (('i18n:domain', 'dd'),),
         (('tal:repeat', 'y r'), ('i18n:translate', '')), (('tal:repeat', 'y r'), ('tal:on-error', 'h')),
         (('tal:on-error', 'h'), ('i18n:translate', ''))]
OUTS = {'o': (0, 1), 'h': ('H',), 'r': ('', '1', '12'), 'a': ('A', None), 'c': (1, 0), 'd': ('D',)}


def conv(tag, a):
    """directives of a template-namespace element may be unprefixed"""
    ns = tag.split(':')[0] + ':' if ':' in tag else None
    return [(k[len(ns):] if ns and k.startswith(ns) else k, v) for k, v in a]


def gen_forms(deep):
    def gen():
        for cont in CONT:
            for omit in OMIT:
                if omit and cont and 'replace' in cont[0]:
                    continue
                for form in FORMS:
                    for tag in TAGS:
                        if form.startswith('void') and tag != 'q':
                            continue
                        for ex in EXTRA:
                            if form.startswith('void') and ('i18n:translate', '') in ex:
                                continue
                            if form.startswith('void') and cont and 'content' in cont[0]:
                                continue
                            for stat in ((), (('id', 'i<"'), ('class', 'c'))):
                                if stat and ':' in tag:
                                    continue
                                yield cont, omit, form, tag, ex, stat
    return gen


def judge_forms(case, rec):
    cont, omit, form, tag, ex, stat = case
    a = list(stat) + [x for x in (cont, omit) if x] + list(ex)
    keys = {v.split()[-1] for k, v in a if v and k.startswith('tal:')}
    outs = [(k, OUTS[k]) for k in OUTS if k in keys]
    outs += [('t', VALUES)] if 't' in keys else []
    outs += [('s', SVALUES)] if 's' in keys else []
    outs += [('inner', ('IN',)), ('o1', (0, 1))] if form in ('kids', 'nested') else []
    for xml in (False, True):
        if xml and form in ('void',):
            continue
        nodes = [T('\n'), FORMS[form](tag, conv(tag, a)), T('\nz')]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as e:
            return rejected(e)
        d = judge_envs(sc, outs, rec)
        if d:
            return d


# ---- nesting: an element with content/replace/omit around another
def gen_nest():
    inner = [x for x in itertools.product(CONT[:5], OMIT) if not (x[1] and x[0] and 'replace' in x[0][0])]
    for o in inner:
        for i in inner:
            for shape in range(3):
                for tags in (('p', 'q'), ('tal:x', 'q'), ('p', 'tal:y'), ('tal:x', 'tal:y')):
                    for xml in (False, True):
                        yield o, i, shape, tags, xml


def judge_nest(case, rec):
    o, i, shape, tags, xml = case
    ao = [x for x in o if x]
    ai = [(k, v + '2' if v else v) for k, v in [x for x in i if x]]
    ai = [(k, v.replace('t2', 't2').replace('s2', 's2')) for k, v in ai]
    inner = E(tags[1], conv(tags[1], ai), ['in'])
    kids = [[inner], [T('a'), inner, T('b')], [E('i', (), [inner]), E('br', (), (), '/')]][shape]
    nodes = [T('x'), E(tags[0], conv(tags[0], ao), kids), T('y')]
    keys = {v.split()[-1] for k, v in ao + ai if v}
    vals = {'t': ('T', None, DEFAULT), 's': ('<u>S</u>', None, DEFAULT), 'o': (0, 1)}
    outs = [(k, vals[k[0]]) for k in sorted(keys)]
    try:
        sc = scenario(nodes, xml)
    except diff.Rejected as e:
        return rejected(e)
    return judge_envs(sc, outs, rec)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        dress.space(5 if deep else 4, dress.has('cont', 'scont', 'repl', 'srepl', 'omit', 'omit0', 'tal:x', 'metal:x', 'i18n:x',
                                                'omitted', 'kept'),
                    ' with content, replace, omit-tag or a template-namespace element'),
        Space('nesting', gen_nest, judge_nest, '11x11 content/replace/omit combinations on nested elements, 3 shapes, 4 tag kinds'),
        Space('forms', gen_forms(deep), judge_forms, '7 content statements x 3 omit-tag x 7 element forms x 5 tag kinds x 11 '
              'companions x 9 value kinds'),
    ]
