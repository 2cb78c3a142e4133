"""C20: directives are recognised by namespace, never by accident of prefix."""
from mc import ast, htmlmodel, real, ref
from mc.ast import NS_URI
from mc.engine import Engine

from .lib import *

ASSUMPTIONS = ['in XML, the same directive given twice under two prefixes is not in the space',
               'template-namespace elements in XML carry no foreign attributes that would have to be shown']
LANG = {u: p for p, u in NS_URI.items()}
TAL, METAL, I18N = NS_URI['tal'], NS_URI['metal'], NS_URI['i18n']
XML_NS = 'http://www.w3.org/XML/1998/namespace'


class Unbound(Exception):
    pass


class Twice(Exception):
    """Same directive twice in XML: outside the space."""


def split(name):
    return name.split(':', 1) if ':' in name else ('', name)


def resolve(nodes, xml, scope=None):
    """The same tree with canonical prefixes for directives and no other colons."""
    if scope is None:
        scope = {'xml': XML_NS} if xml else dict(NS_URI)
    out = []
    for n in nodes:
        if n.__class__ is T:
            out.append(T(n.s))
            continue
        sc = dict(scope)
        for k, v in n.attrs:
            if k.startswith('xmlns:'):
                sc[k[6:]] = v
            elif k == 'xmlns' and xml:
                sc[''] = v
        p, local = split(n.tag)
        if xml and p and p not in sc:
            raise Unbound(n.tag)
        lang = LANG.get(sc.get(p, '')) if (p or xml) else None
        tag = lang + ':' + local if lang else n.tag.replace(':', '\xa7')
        decls, attrs = [], []
        seen = set()
        for k, v in n.attrs:
            q, kl = split(k)
            if q == 'xmlns' or (xml and k == 'xmlns'):
                if v in LANG and (xml or q):
                    item = ('xmlns:tal', v)
                    if xml:
                        continue
                else:
                    item = (k.replace(':', '\xa7'), v)
                    if xml and lang:
                        continue
                (decls if xml else attrs).append(item)
                continue
            if xml and q and q not in sc:
                raise Unbound(k)
            kd = LANG.get(sc.get(q)) if q else None
            if xml and q:
                if (sc[q], kl) in seen:
                    raise Twice
                seen.add((sc[q], kl))
            if kd or (lang and not q):
                key = (kd or lang, kl)
                if key in seen and xml:
                    raise Twice
                seen.add(key)
            if kd:
                attrs.append((kd + ':' + kl, v))
            elif xml and lang and q:
                continue
            else:
                attrs.append((k.replace(':', '\xa7'), v))
        e = E(tag, decls + attrs, (), n.form)
        e.kids = resolve(n.kids, xml, sc)
        out.append(e)
    return out


def copy_pos(a, b):
    for x, y in zip(a, b):
        if y.__class__ is not T:
            y.pos, y.epos = x.pos, x.epos
            copy_pos(x.kids, y.kids)


class Env(dict):
    def __missing__(self, k):
        v = self[k] = 'K' + k
        return v


def judge_tree(nodes, xml, rec):
    src = ast.to_source(nodes)
    try:
        canon = resolve(nodes, xml)
    except Unbound:
        exp = 'unbound prefix'
        canon = None
    except Twice:
        return
    if canon is not None:
        copy_pos(nodes, canon)
        try:
            t = ref.Template(canon, xml, 'page')
            exp = None
        except ref.Reject as r:
            exp = 'template error'     # of any family: a document may have several mistakes
    try:
        prog = real.compile_source(src, xml, 'page')
        got = None
    except real.TALError:
        got = 'template error'
    except Exception as e:
        got = type(e).__name__
        if got == 'ExpatError':
            got = 'unbound prefix'
    if exp != got:
        rec.execution([src])
        return {'problem': 'compilation differs', 'source': src, 'xml': xml, 'expected': exp or 'compiles', 'actual': got or 'compiles'}
    if exp:
        rec.execution([src], final=exp)
        return
    e1, e2 = Engine(Env(), {}), Engine(Env(), {})
    e1.hide = e2.hide = ('attrs',)
    a = diff.run(lambda: ref.Render(t, e1, is_message=real.is_message).run().replace('\xa7', ':'), e1)
    b = diff.run(lambda: real.render(*prog, e2), e2)
    rec.execution(a.trace, final=(src, a.error or a.text))
    d = diff.mismatch(a, b)
    if d:
        d.update(source=src, xml=xml)
        return d


# ---- all bindings, uses and rebindings on nested elements
DECL = [(), (('xmlns:tal', TAL),), (('xmlns:tal', 'u'),), (('xmlns:t', TAL),), (('xmlns:t', 'u'),), (('xmlns:tal', METAL),),
        (('xmlns', TAL),), (('xmlns', 'u'),), (('xmlns:tal', 'u'), ('xmlns:t', TAL)), (('xmlns', ''),), (('xmlns:t', METAL), ('xmlns:tal', I18N))]
TAG = ['q', 'tal:q', 't:q']
ATT = [(), (('tal:define', 'x d'),), (('t:define', 'x d'),), (('define', 'x d'),), (('tal:define', 'x d'), ('t:define', 'x e')),
       (('class', 'c'), ('t:class', 'c'))]


def number(attrs, i):
    return [(k, v + str(i) if v.startswith('x ') else v) for k, v in attrs]


def gen_nested(root, decl, tags, att):
    def gen():
        for xml in (False, True):
            for r in root:
                one = [(d, t, a) for d in decl for t in tags for a in att]
                for x in one:
                    for y in one:
                        yield xml, (r,), x, y
    return gen


def build(xml, r, elems, probe=True):
    def el(i):
        d, t, a = elems[i]
        kids = [T(str(i))]
        if i + 1 < len(elems):
            kids += [el(i + 1), T('/')]
        return E(t, list(d) + number(a, i), kids)
    body = [el(0)]
    if probe:
        body += [E('w', [('tal:attributes', 'k k1')], ['p'])]
    return [E('r', list(r[0]), body)]


def judge_nested(case, rec):
    xml, r, *elems = case
    return judge_tree(build(xml, r, elems, probe=not xml or any(k == 'xmlns:tal' for k, _ in r[0])), xml, rec)


# ---- every directive under every prefix
STM2 = [('tal', 'define', 'x d'), ('tal', 'condition', 'c'), ('tal', 'repeat', 'y r'), ('tal', 'content', 't'), ('tal', 'replace', 'structure s'),
        ('tal', 'attributes', 'k k'), ('tal', 'omit-tag', ''), ('tal', 'on-error', 'h'), ('metal', 'define-macro', 'mm'),
        ('i18n', 'translate', ''), ('i18n', 'domain', 'dd'), ('i18n', 'attributes', 'title'), ('i18n', 'name', 'n'), ('metal', 'use-macro', 'none'),
        ('metal', 'define-slot', 'a'), ('metal', 'fill-slot', 'a')]
BIND = ['tal', 'metal', 'i18n', 'x', 'xmlnsx', 'T', 'a-b', 'tal2', 'html']


def gen_all():
    for xml in (False, True):
        for lang, name, val in STM2:
            for p in BIND:
                for uri in (TAL, METAL, I18N, 'u', TAL + '/', TAL.upper(), 'http://xml.zope.org/namespaces/'):
                    for where in ('root', 'self', 'parent', 'none', 'self-rebound'):
                        for style in ('attr', 'element'):
                            yield xml, (lang, name, val), p, uri, where, style


def judge_all(case, rec):
    xml, (lang, name, val), p, uri, where, style = case
    if not xml:
        p = p.lower()
    d = [('xmlns:' + p, uri)]
    z = [('xmlns:' + p, 'zzz')]
    root = d if where == 'root' else z if where == 'self-rebound' else []
    par = d if where == 'parent' else []
    own = d if where in ('self', 'self-rebound') else []
    stat = [('title', 'T')]
    if style == 'attr':
        el = E('q', stat + own + [(p + ':' + name, val)], ['in', E('i', [(p + ':omit-tag', '')], ['n'])])
    else:
        el = E(p + ':q', own + [(name, val)], ['in', E('i', [('b', '2')], ['n'])])
    nodes = [E('r', root, [E('o', par, [T('\n'), el, T('\n')]), E('w', [('class', '1')], ['w'])])]
    return judge_tree(nodes, xml, rec)


# ---- HTML: names with several colons (the prefix ends at the first one)
WORDS = ['tal', 't', 'u', 'content', 'xmlns', '', 'define']


def gen_colons():
    for n in (2, 3):
        for w in itertools.product(WORDS, repeat=n):
            if n == 3 or '' in w:
                for decl in HD + [(('xmlns:t', TAL),), (('xmlns:t:u', TAL),), (('xmlns:u', 'v'), ('xmlns:t', 'tal'))]:
                    for tag in ('q', 'tal:q', 't:q', 'u:q'):
                        yield ':'.join(w), decl, tag


def judge_colons(case, rec):
    name, decl, tag = case
    if not name[0].isalpha():
        return
    decl = tuple(a for a in decl if a[0] != name)
    body = E(tag, list(decl) + [(name, 'x d')], ['in'])
    return judge_tree([E('r', (), [body, E('w', [('tal:attributes', 'k k1')], ['p'])])], False, rec)


# ---- HTML: a declaration ends with its element, however the element ends
HT = [('s', 'p', 0, False), ('s', 'p', 1, False), ('s', 'p', 2, False), ('s', 'b', 1, True), ('s', 'br', 1, False), ('s', 'b', 2, False),
      ('s', 'li', 1, False), ('s', 'td', 2, False), ('s', 'b', 0, True), ('s', 'br', 2, True), ('e', 'p'), ('e', 'b'), ('e', 'li'), ('t', 'x\n')]
HD = [(), (('xmlns:tal', 'u'),), (('xmlns:tal', 'u'), ('xmlns:t', TAL))]
PROBE = (('tal:attributes', 'k k'), ('t:attributes', 'j k'))


def gen_ends(n):
    def gen():
        for k in range(1, n + 1):
            for t in itertools.product(HT, repeat=k):
                yield t
    return gen


def judge_ends(toks, rec):
    toks = list(toks) + [('s', 'hr', 0, True)]
    src = [('s', t[1], HD[t[2]] + PROBE, t[3]) if t[0] == 's' else t for t in toks]
    text, _ = htmlmodel.source(src)
    try:
        nested = htmlmodel.nest(src)
    except htmlmodel.Misnested:
        nested = None
    try:
        prog = real.compile_source(text, False, 'page')
        got = None
    except (real.HTMLParseError, real.TALError) as x:
        got = 'TALError' if isinstance(x, real.TALError) else 'nesting'
    scopes = [dict(NS_URI)]
    active = []
    exp = []
    fails = None
    for t in nested or ():
        if t[0] == 's':
            sc = dict(scopes[-1])
            sc.update((k[6:], v) for k, v in t[2] if k.startswith('xmlns:'))
            keep, dyn = [], []
            for k, v in t[2]:
                if k.startswith('xmlns:'):
                    if v != TAL:
                        keep.append((k, v))
                elif sc.get(k.split(':')[0]) == TAL:
                    dyn.append((v.split()[0], 'Kk'))
                else:
                    keep.append((k, v))
            if len(dyn) > 1:
                raise AssertionError('two probes active')
            exp.append(('s', t[1], tuple(keep + dyn), t[3]))
            if t[3] == '':
                scopes.append(sc)
                active.append(dyn)
        else:
            if t[0] == 'e':
                scopes.pop()
                if active.pop() and t[2]:
                    fails = 'TALError'       # directives require an explicit end tag
            exp.append(t)
    if nested is None:
        if got is None:
            return {'problem': 'misnested document accepted', 'source': text}
        return
    if fails != got:
        return {'problem': 'compilation differs', 'source': text, 'expected': fails or 'compiles', 'actual': got or 'compiles'}
    if fails:
        rec.execution(src, final=fails)
        return
    exp = htmlmodel.write(exp)
    e = Engine(Env())
    try:
        out = real.render(*prog, e)
    except Exception as x:
        out = repr(x)
    rec.execution(src, final=exp)
    if out != exp:
        return {'problem': 'different output', 'source': text, 'expected': exp, 'actual': out}


def gen_three(decl, tags, att):
    def gen():
        for xml in (False, True):
            one = [(d, t, a) for d in decl for t in tags for a in att]
            for x in one:
                for y in one:
                    for z in one:
                        yield xml, (((('xmlns:tal', TAL), ('xmlns:t', 'v'))),), x, y, z
    return gen


def spaces(tier):
    deep = tier == 'thorough'
    roots = [(('xmlns:tal', TAL), ('xmlns:t', 'v')), (('xmlns:t', TAL), ('xmlns:tal', 'w')), (('xmlns:tal', TAL), ('xmlns:t', TAL), ('xmlns', 'k'))]
    return [
        Space('every-directive', gen_all, judge_all, '16 directives x 9 prefixes x 7 namespaces x 5 places of declaration, as attribute and element'),
        Space('colons', gen_colons, judge_colons, 'attribute names of up to 3 of 7 words with colons x 6 declarations x 4 tags, HTML'),
        Space('ends', gen_ends(5 if deep else 4), judge_ends, 'all sequences of <=%d of 14 HTML tokens' % (5 if deep else 4)),
        Space('nested', gen_nested(roots + [()] if deep else roots[:2], DECL, TAG, ATT), judge_nested,
              '11 declarations x 3 tags x 6 attribute sets on each of two nested elements'),
        Space('nested3', gen_three(DECL[:8] if deep else DECL[1:5], TAG if deep else TAG[:2], ATT[:4] if deep else ATT[1:3]), judge_nested, 'three nested elements'),
    ]
