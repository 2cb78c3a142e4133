"""Reference model of TAL / METAL / I18N.

A direct recursive walk over the AST: no code generation, no optimizer, no
instruction stack.  ``Template`` applies the static rules (which directives are
active, which are errors), ``Render`` executes.  It is bound to the
implementation by comparing output and engine trace on every enumerated case.
"""
import re
from html import unescape

from .ast import E, T
from .engine import DEFAULT, HarnessError

NAME = r'[a-zA-Z_][-a-zA-Z0-9_]*'
TAL_ATTRS = {'define', 'condition', 'content', 'replace', 'repeat', 'attributes',
             'on-error', 'omit-tag', 'script'}
METAL_ATTRS = {'define-macro', 'extend-macro', 'use-macro', 'define-slot', 'fill-slot'}
I18N_ATTRS = {'translate', 'domain', 'target', 'source', 'attributes', 'data', 'name',
              'ignore', 'ignore-attributes'}
VOID = {'base', 'meta', 'link', 'hr', 'br', 'param', 'img', 'area', 'input', 'col',
        'basefont', 'isindex', 'frame'}
BOOLEAN = {'compact', 'nowrap', 'ismap', 'declare', 'noshade', 'checked', 'disabled',
           'readonly', 'multiple', 'selected', 'noresize', 'defer'}
LANGS = ('tal', 'metal', 'i18n')


class Reject(Exception):
    """The template is invalid: error family and position of the element."""

    def __init__(self, kind, pos, why=''):
        Exception.__init__(self, kind, pos, why)
        self.kind, self.pos, self.why = kind, pos, why


class MetalFail(Exception):
    """Render-time METAL failure (the implementation raises METALError)."""


class StructFail(Exception):
    """Inserted structure is malformed."""


def split_parts(arg):
    """';' separates, ';;' is a literal ';', an empty last part is dropped."""
    parts, cur, i = [], '', 0
    while i < len(arg):
        if arg[i] == ';':
            if arg[i + 1:i + 2] == ';':
                cur += ';'
                i += 2
                continue
            parts.append(cur)
            cur = ''
        else:
            cur += arg[i]
        i += 1
    parts.append(cur)
    if len(parts) > 1 and not parts[-1].strip():
        parts.pop()
    return parts


def subst(arg):
    s = arg.lstrip()
    for k in ('text', 'structure'):
        if s.startswith(k) and s[len(k):len(k) + 1].isspace():
            return k, s[len(k):].lstrip()
    return 'text', s


class Info:
    """Static description of one element's directives."""
    __slots__ = ('ns', 'tal', 'metal', 'i18n', 'attrs', 'use', 'defmacro', 'defslot',
                 'fill', 'ctx', 'scope', 'defines', 'repl', 'replaced', 'rep', 'ws',
                 'content', 'omit', 'file', 'slots', 'srclist', 'script', 'tpl')


def ns_of(name):
    if ':' in name:
        p, rest = name.split(':', 1)
        if p in LANGS:
            return p, rest
        if p == 'xmlns':
            return ('xmlns' if rest in LANGS else None), name
    return None, name


class Template:
    def __init__(self, nodes, xml, file=None):
        self.nodes = nodes
        self.xml = xml
        self.file = file
        self.macros = {}
        self._in_use = 0
        self._in_def = 0
        self._i18n = 0
        self._slots = None
        self._ctx = ('default', None, None)
        self._kids(nodes)

    def _kids(self, kids):
        prev = ''
        for n in kids:
            if n.__class__ is T:
                prev += n.s
            else:
                self._el(n, prev)
                prev = ''

    def _el(self, e, prev):
        f = e.info = Info()
        f.tpl = self
        xml = self.xml
        tagns, _ = ns_of(e.tag)
        f.ns = tagns if tagns in LANGS else None
        tal, metal, i18n = {}, {}, {}
        dicts = {'tal': tal, 'metal': metal, 'i18n': i18n}
        f.attrs = []
        tag = e.tag
        pos = e.pos
        attrs = e.attrs
        for k, v in attrs:
            if not xml:
                k = k.lower()
            n, base = ns_of(k)
            n = n or f.ns
            f.attrs.append((k, v, n))
            if n in dicts:
                if base in dicts[n]:
                    raise Reject({'tal': 'TALError', 'metal': 'METALError',
                                  'i18n': 'I18NError'}[n], pos, 'duplicate')
                dicts[n][base] = v
        f.script = None
        if not xml and tag == 'script':
            ty = [a for a in f.attrs if a[0] == 'type']
            if ty and (ty[0][1] or '').startswith('text/server-'):
                f.attrs.remove(ty[0])
                tal.clear()
                tal.update({'omit-tag': ''})
                f.script = ty[0][1]
        if tal.get('script'):
            f.script = tal['script']
        f.tal, f.metal, f.i18n = tal, metal, i18n
        f.file = self.file
        f.use = f.defmacro = f.defslot = f.fill = None
        f.ctx = None
        f.slots = None
        f.ws = ''
        f.repl = {}
        f.replaced = False
        f.defines = ()
        f.rep = f.content = None
        f.omit = None
        f.scope = bool(tal or i18n or f.ns or f.script)
        if not (tal or metal or i18n or f.ns or f.script):
            self._kids(e.kids)
            return
        if not xml and tag in VOID and 'content' in tal:
            raise Reject('TALError', pos, 'content on void')
        if 'replace' in tal:
            if 'content' in tal:
                raise Reject('TALError', pos, 'content+replace')
            f.replaced = True
        for k, v in tal.items():
            if k not in TAL_ATTRS:
                raise Reject('TALError', pos, 'bad tal')
            if not (v or k == 'omit-tag'):
                raise Reject('TALError', pos, 'missing value')
        for k, v in metal.items():
            if k not in METAL_ATTRS:
                raise Reject('METALError', pos, 'bad metal')
            if not v:
                raise Reject('TALError', pos, 'missing value')
        for k, v in i18n.items():
            if k not in I18N_ATTRS:
                raise Reject('I18NError', pos, 'bad i18n')
            if not v and k in ('attributes', 'data', 'id'):
                raise Reject('I18NError', pos, 'missing value')
        content = tal.get('content') or tal.get('replace')
        msgid = i18n.get('translate')
        name = i18n.get('name')
        data = i18n.get('data')
        if name and not self._i18n:
            raise Reject('I18NError', pos, 'name outside unit')
        if data and not msgid:
            raise Reject('I18NError', pos, 'data without translate')
        g = metal.get
        if g('extend-macro'):
            if g('use-macro') or not g('define-macro'):
                raise Reject('METALError', pos, 'extend')
        if g('define-macro') or g('use-macro'):
            if g('fill-slot') or g('define-slot') or (g('define-macro') and g('use-macro')):
                raise Reject('METALError', pos, 'combination')
        if content and msgid:
            raise Reject('I18NError', pos, 'msgid+content')
        if tal.get('repeat'):
            m = re.search(r'\r?\n[ \t]*\Z', prev)
            if m:
                f.ws = m.group()
        saved_use = self._in_use
        if self._in_use:
            if g('fill-slot'):
                f.fill = g('fill-slot')
                self._in_use = 0
        elif g('fill-slot'):
            raise Reject('METALError', pos, 'fill outside use')
        saved_slots = self._slots
        if not self._in_use:
            if g('define-macro'):
                f.defmacro = g('define-macro')
                self._in_def += 1
            u = g('use-macro') or g('extend-macro')
            if u:
                f.use = u
                f.slots = self._slots = {}
                self._in_use = 1
            if g('define-slot'):
                if not self._in_def:
                    raise Reject('METALError', pos, 'slot outside macro')
                f.defslot = g('define-slot')
        saved_ctx = self._ctx
        if g('define-slot') or i18n:
            c = (i18n.get('domain') or self._ctx[0], i18n.get('source') or self._ctx[1],
                 i18n.get('target') or self._ctx[2])
            if i18n.get('domain') or c != ('default', None, None):
                f.ctx = self._ctx = c
        if tal.get('define'):
            f.defines = []
            for part in split_parts(tal['define']):
                m = re.match(r'(?s)\s*(?:(global|local)\s+)?(%s)\s+(.*)\Z' % NAME, part)
                if not m:
                    raise Reject('TALError', pos, 'define syntax')
                f.defines.append((m.group(1) or 'local', m.group(2), self._expr(m.group(3), pos)))
        if msgid is not None:
            self._i18n += 1
        if tal.get('attributes') or i18n.get('attributes'):
            self._attrs(f, pos)
        f.omit = tal.get('omit-tag', '' if f.replaced else None)
        # children
        self._kids(e.kids)
        # end of element
        if msgid is not None:
            self._i18n -= 1
        if content:
            kind, x = subst(content)
            f.content = kind, self._expr(x, pos)
        if data:
            if subst(data)[0] != 'text':
                raise Reject('I18NError', pos, 'data structure')
            self._expr(subst(data)[1], pos)
        if f.omit:
            self._expr(f.omit, pos)
        if name and not re.match(NAME + r'\Z', name):
            raise Reject('TALError', pos, 'name syntax')
        if tal.get('repeat'):
            m = re.match(r'(?s)\s*(%s)\s+(.*)\Z' % NAME, tal['repeat'])
            if not m:
                raise Reject('TALError', pos, 'repeat syntax')
            f.rep = m.group(1), self._expr(m.group(2), pos)
        if tal.get('condition'):
            self._expr(tal['condition'], pos)
        if tal.get('on-error'):
            self._expr(subst(tal['on-error'])[1], pos)
        self._ctx = saved_ctx
        for s in (f.defslot, f.fill):
            if s and not re.match(NAME + '$', s.strip()):
                raise Reject('METALError', pos, 'slot name')
        if f.fill:
            f.fill = f.fill.strip()
            if f.fill in saved_slots:
                raise Reject('METALError', pos, 'duplicate fill')
            saved_slots[f.fill] = e
        if f.defslot:
            f.defslot = f.defslot.strip()
        if f.use:
            self._expr(f.use, pos)
            self._slots = saved_slots
        self._in_use = saved_use
        if f.defmacro:
            f.defmacro = f.defmacro.strip()
            if f.defmacro in self.macros:
                raise Reject('METALError', pos, 'duplicate macro')
            if not re.match(NAME + '$', f.defmacro):
                raise Reject('METALError', pos, 'macro name')
            self._in_def -= 1
            self.macros[f.defmacro] = Macro(self, e)

    def _expr(self, x, pos):
        if x.startswith('bad'):
            raise Reject('TALError', pos, 'expression syntax')
        return x

    def _attrs(self, f, pos):
        low = (lambda s: s) if self.xml else str.lower
        xl = {}
        for spec in (f.i18n.get('attributes') or '').split(';'):
            if not spec:
                continue
            p = spec.split()
            if len(p) not in (1, 2):
                raise Reject('TALError', pos, 'i18n:attributes')
            n = low(p[0])
            if n in xl:
                raise Reject('TALError', pos, 'i18n:attributes dup')
            xl[n] = p[1] if len(p) == 2 else None
        d = {}
        if f.tal.get('attributes'):
            for part in split_parts(f.tal['attributes']):
                m = re.match(r'(?s)\s*(\S+)\s+(\S.*)\Z', part)
                if not m:
                    raise Reject('TALError', pos, 'attributes syntax')
                n = low(m.group(1))
                if n in d:
                    raise Reject('TALError', pos, 'attributes dup')
                if xl.get(n):
                    raise Reject('I18NError', pos, 'attributes msgid')
                d[n] = (self._expr(m.group(2), pos), n in xl, None)
        for n, mid in xl.items():
            if n not in d:
                d[n] = (None, True, mid)
        f.repl = d


class Macro:
    def __init__(self, tpl, el):
        self.tpl, self.el = tpl, el


class Frame:
    """One macro expansion in progress."""
    __slots__ = ('slots', 'extending', 'below', 'depth', 'use', 'define', 'entering')

    def __init__(self, slots, extending, below, use, define):
        self.slots, self.extending, self.below = slots, extending, below
        self.depth = (below.depth if below else 0) + 1
        self.use, self.define, self.entering = use, define, True


def quote(v, html):
    v = v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    if not html:
        v = v.replace('\t', '&#9;').replace('\n', '&#10;').replace('\r', '&#13;')
    return '"%s"' % v


def text_escape(v, html):
    v = v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return v if html else v.replace('\r', '&#13;')


_ent = re.compile(r'&(?!(?:[A-Za-z][A-Za-z0-9]*|#[0-9]+|#[xX][A-Fa-f0-9]*);)')


def static_attr(v, html=True):
    if not html:
        return quote(v, html)
    s = _ent.sub('&amp;', v).replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    if unescape(s) != v:
        return quote(v, html)
    return '"%s"' % s


def norm(s):
    return ' '.join(s.split())


_tok = re.compile(r'<(/?)([A-Za-z][-A-Za-z0-9:]*)((?:\s+[^\s=>/]+(?:="[^"]*")?)*)\s*(/?)>|([^<]+)')
_att = re.compile(r'\s+([^\s=>/]+)(?:="([^"]*)")?')


def unesc(v):
    return (v.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"')
            .replace('&#10;', '\n').replace('&amp;', '&'))


def parse_fragment(src, xml):
    """Small strict parser for structure values; StructFail if malformed."""
    root = []
    stack = [(None, root)]
    i = 0
    while i < len(src):
        m = _tok.match(src, i)
        if not m:
            raise HarnessError('structure text outside the model: %r' % src)
        i = m.end()
        slash, tag, atts, selfc, text = m.groups()
        if text is not None:
            stack[-1][1].append(T(text))
            continue
        if not xml:
            tag = tag.lower()
        if slash:
            if (not xml and tag in VOID) or stack[-1][0] != tag:
                raise StructFail(src)
            stack.pop()
            continue
        e = E(tag, [(k, None if v is None else unesc(v)) for k, v in
                    ((q.group(1), q.group(2)) for q in _att.finditer(atts))])
        if xml and len(set(k for k, _ in e.attrs)) != len(e.attrs):
            raise StructFail(src)
        stack[-1][1].append(e)
        if selfc:
            e.form = '/'
        elif not xml and tag in VOID:
            e.form = 'v'
        else:
            stack.append((tag, e.kids))
    if xml and len(stack) > 1:
        raise StructFail(src)
    return root


class Render:
    def __init__(self, tpl, engine, tal=1, metal=1, showtal=-1, strictinsert=1,
                 limit=100, interpolate=1, is_message=None):
        self.t = tpl
        self.eng = engine
        self.tal = tal
        self.metal = metal
        self.showtal = (not tal) if showtal == -1 else showtal
        self.strict = strictinsert
        self.limit = limit
        self.interpolate = interpolate
        self.out = []
        self.frame = None
        self.ctx = ('default', None, None)
        self.units = []          # open translation units: mappings
        self.is_message = is_message or (lambda v: False)

    def run(self):
        self.html = not self.t.xml
        self.kids(self.t.nodes)
        return ''.join(self.out)

    # -- helpers
    def here(self, e):
        self.eng.position = e.pos
        self.eng.source_file = e.info.file

    def x(self, expr):
        return ('expr', expr)

    def capture(self, fn, *args):
        saved, self.out = self.out, []
        try:
            fn(*args)
            return ''.join(self.out)
        finally:
            self.out = saved

    def translate(self, msgid, default=None, mapping=None, data=None):
        if default is None:
            default = getattr(msgid, 'default', str(msgid))
        mapping = dict(mapping or {})
        if data:
            mapping.update(data)
        if not self.interpolate:
            return msgid
        return self.eng.translate(msgid, self.ctx[0], mapping, default=default)

    # -- structure
    def kids(self, nodes):
        n = len(nodes)
        for i, k in enumerate(nodes):
            if k.__class__ is T:
                s = k.s
                j = i + 1
                while j < n and nodes[j].__class__ is T:
                    j += 1
                if j < n and nodes[j].info.ws:
                    # trailing newline+indent belongs to the following loop
                    rest = sum(len(nodes[q].s) for q in range(i + 1, j))
                    cut = len(nodes[j].info.ws) - rest
                    if cut > 0:
                        s = s[:len(s) - cut] if cut < len(s) else ''
                    # later text nodes handle their own part
                self.out.append(s)
            else:
                self.element(k)

    def element(self, e):
        f = e.info
        if f.fill:
            self.filler(e)
        elif f.defmacro:
            self.macro_body(e, False)
        elif f.use:
            self.use(e, None, False)
        elif f.defslot:
            self.slot(e)
        else:
            self.body(e)

    def filler(self, e):
        if e.info.defslot:
            self.slot(e)
        else:
            self.body(e)

    def macro_body(self, e, used):
        if e.info.use:
            self.use(e, e.info.defmacro, used and bool(self.metal))
        else:
            self.body(e)

    def use(self, e, defining, extending):
        f = e.info
        if not self.metal:
            return self.body(e)
        self.here(e)
        m = self.eng.evaluateMacro(self.x(f.use))
        if m is not DEFAULT and m.tpl.xml != (not self.html):
            raise MetalFail('mode')
        if (self.frame.depth if self.frame else 0) >= self.limit:
            raise MetalFail('limit')
        saved = self.frame
        self.frame = Frame(f.slots, extending, saved, f.use, defining)
        eng = self.eng
        eng.beginScope()
        eng.setLocal('macroname', f.use.rsplit('/', 1)[-1])
        try:
            if m is DEFAULT:
                self.body(e)
            else:
                self.macro_body(m.el, True)
        finally:
            self.frame = saved
            eng.endScope()

    def slot(self, e):
        if self.metal:
            fr = self.frame
            while fr is not None:
                if e.info.defslot in fr.slots:
                    filler = fr.slots[e.info.defslot]
                    saved = self.frame
                    self.frame = fr.below
                    try:
                        self.filler(filler)
                    finally:
                        self.frame = saved
                        g = saved
                        while g is not fr.below:
                            g.entering = False
                            g = g.below
                    return
                fr = fr.below if fr.extending else None
        self.body(e)

    def body(self, e):
        f = e.info
        saved = self.ctx
        if f.ctx:
            self.ctx = tuple(n or o for n, o in zip(f.ctx, saved))
        if f.scope:
            self.eng.beginScope()
            if self.tal:
                self.eng.setLocal('attrs', {k: v for k, v, _ in f.attrs})
        ok = False
        try:
            if self.tal and f.tal.get('on-error'):
                self.guarded(e)
            else:
                self.steps(e)
            ok = True
        finally:
            self.ctx = saved
        if f.scope and ok:
            self.eng.endScope()

    def guarded(self, e):
        f = e.info
        eng = self.eng
        depth = len(eng.scopes)
        st = (self.frame, list(self.units), [dict(u) for u in self.units], self.ctx, self.html)
        try:
            s = self.capture(self.steps, e)
        except Exception as exc:
            while len(eng.scopes) > depth:
                eng.endScope()
            self.frame = st[0]
            self.units[:] = st[1]
            self.ctx, self.html = st[3], st[4]
            eng.beginScope()
            self.here(e)
            eng.setLocal('error', eng.createErrorInfo(exc, e.pos))
            try:
                self.handler(e)
            finally:
                eng.endScope()
        else:
            self.out.append(s)

    def handler(self, e):
        f = e.info
        show = not (f.ns and not self.showtal)
        if show:
            self.out.append('<' + e.tag + self.attributes(e, {}) + '>')
        kind, x = subst(f.tal['on-error'])
        self.here(e)
        self.insert(e, kind, x, None, {}, False)
        if show:
            self.out.append('</%s>' % e.tag)

    def steps(self, e):
        f = e.info
        if self.tal:
            self.here(e)
            for scope, name, x in f.defines:
                v = self.eng.evaluateValue(self.x(x))
                (self.eng.setGlobal if scope == 'global' else self.eng.setLocal)(name, v)
            if f.tal.get('condition') and not self.eng.evaluateBoolean(self.x(f.tal['condition'])):
                return
            if f.rep:
                it = self.eng.setRepeat(f.rep[0], self.x(f.rep[1]))
                while True:
                    self.here(e)
                    if not next(it):
                        break
                    self.out.append(f.ws)
                    self.once(e)
                return
        self.out.append(f.ws)
        self.once(e)

    def once(self, e):
        f = e.info
        name = f.i18n.get('name')
        if not name:
            return self.tagged(e)
        s = self.capture(self.tagged, e)
        if not (self.html and e.tag == 'pre'):
            s = norm(s)
        self.units[-1][name] = s
        self.out.append('${%s}' % name)

    def tagged(self, e):
        f = e.info
        optional = f.omit is not None or f.ns
        self_closed = e.form == '/' and self.html and not (
            'content' in f.tal or f.i18n.get('translate') is not None)
        if self.html and e.form == 'v':
            self_closed = True
        hollow = (not e.kids and not f.content and f.i18n.get('translate') is None
                  and not f.script)
        if optional:
            omit = False
            if self.tal and f.omit is not None:
                self.here(e)
                omit = f.omit == '' or self.eng.evaluateBoolean(self.x(f.omit))
            if omit or (f.ns and not self.showtal):
                self.attributes(e, {} if f.replaced else f.repl)
                self.content(e)
                return
            if not self.html and hollow:
                self.start(e, '/>')
                return
        elif not self.html and hollow and not f.i18n.get('name'):
            self.start(e, '/>')
            return
        if self_closed:
            self.start(e, ' />' if e.form == '/' else '>')
            return
        self.start(e, '>')
        self.content(e)
        self.out.append('</%s>' % e.tag)

    def start(self, e, end):
        s = self.attributes(e, {} if e.info.replaced else e.info.repl)
        self.out.append('<' + e.tag + s + end)

    def attributes(self, e, repl):
        """Rendered attribute text; evaluates attribute expressions."""
        f = e.info
        self.here(e)
        res = []
        left = dict(repl)
        for k, v, ns in f.attrs:
            if k in left:
                r = self.attr(k, v, True, left.pop(k))
            elif ns:
                r = self.directive(k, v, ns) if self.showtal else []
            else:
                r = [k if v is None else k + '=' + static_attr(v, self.html)]
            res += r
        for k in sorted(left):
            res += self.attr(k, None, False, left[k])
        return ''.join(' ' + r for r in res)

    def attr(self, k, static, present, how):
        x, xlat, msgid = how
        if not self.tal:
            if not present:
                return []
            return [k if static is None else k + '=' + quote(static, self.html)]
        v = static
        if x is None:
            if not present and not msgid:       # nothing to translate
                return []
        elif self.html and k in BOOLEAN:
            b = self.eng.evaluateBoolean(self.x(x))
            if b is DEFAULT:
                if not present:
                    return []
            elif b:
                v = None
            else:
                return []
        else:
            r = self.eng.evaluateText(self.x(x))
            if r is DEFAULT:
                if not present:
                    return []
            elif r is None:
                return []
            else:
                v = r
        if xlat and (msgid or v is not None):
            t = self.translate(msgid or v, v)
            if t is not None:
                v = t
        elif self.is_message(v):
            t = self.translate(v)
            if t is not None:
                v = t
        if v is None:
            v = k
        return [k + '=' + quote(v, self.html)]

    def directive(self, k, v, ns):
        fr = self.frame
        if ns == 'metal' and self.metal and fr is not None:
            chain = []
            g = fr
            while g is not None:
                chain.append(g)
                g = g.below
            if any(not g.extending for g in chain[:-1]) or not fr.entering:
                return []
            fr.entering = False
            bottom = chain[-1]
            i = k.rfind(':') + 1
            pre, base = k[:i], k[i:]
            if base == 'define-macro':
                r = []
                if bottom.define:
                    r.append('%sdefine-macro=%s' % (pre, quote(bottom.define, self.html)))
                r.append('%suse-macro=%s' % (pre, quote(bottom.use, self.html)))
                return r
            if base == 'define-slot':
                k = pre + 'fill-slot'
            elif base != 'fill-slot':
                return []
        return [k if v is None else k + '=' + quote(v, self.html)]

    def content(self, e):
        f = e.info
        if f.content:
            kind, x = f.content
            if self.tal:
                self.here(e)
                self.insert(e, kind, x, e, f.repl if f.replaced else {},
                            f.i18n.get('translate') is not None)
            else:
                self.inside(e)
        elif f.i18n.get('translate') is not None:
            self.unit(e)
        else:
            self.inside(e)

    def inside(self, e):
        f = e.info
        if f.script:
            code = self.capture(self.kids, e.kids)
            self.here(e)
            self.out.append(self.eng.evaluateCode(f.script, code))
        else:
            self.kids(e.kids)

    def insert(self, e, kind, x, block, repl, translate):
        eng = self.eng
        if kind == 'text':
            v = eng.evaluateText(self.x(x))
            if v is None:
                return
            if v is DEFAULT:
                if block is not None:
                    self.inside(block)
                return
            if self.is_message(v) or translate:
                v = self.translate(v)
            self.out.append(text_escape(v, self.html))
            return
        v = eng.evaluateStructure(self.x(x))
        if v is None:
            return
        if v is DEFAULT:
            if block is not None:
                self.inside(block)
            return
        self.structure(e, v, repl, translate)

    def structure(self, e, v, repl, translate):
        if self.is_message(v):
            s = self.translate(v)
        elif translate:
            s = self.translate(str(v))
        else:
            s = str(v)
        if not (repl or self.strict):
            self.out.append(s)
            return
        nodes = parse_fragment(s, not self.html)
        self.struct_first = dict(repl)
        self.struct_nodes(e, nodes)

    def struct_nodes(self, owner, nodes):
        for n in nodes:
            if n.__class__ is T:
                self.out.append(n.s)
                continue
            attrs = [(k.lower() if self.html else k, v) for k, v in n.attrs]
            inlang = ns_of(n.tag)[0] in LANGS
            repl, self.struct_first = self.struct_first, {}
            had_scope = bool(repl)
            if repl:
                self.eng.beginScope()
                self.eng.setLocal('attrs', dict(attrs))
                self.here(owner)
            res = []
            for k, v in attrs:
                if k in repl:
                    res += self.attr(k, v, True, repl.pop(k))
                elif ns_of(k)[0] or inlang:
                    if self.showtal:
                        res.append(k if v is None else k + '=' + quote(v, self.html))
                else:
                    res.append(k if v is None else k + '=' + static_attr(v, self.html))
            for k in sorted(repl):
                res += self.attr(k, None, False, repl[k])
            if had_scope:
                self.eng.endScope()
            tag = '<' + n.tag + ''.join(' ' + r for r in res)
            if self.html and n.form:
                self.out.append(tag + (' />' if n.form == '/' else '>'))
            elif not self.html and not n.kids:
                self.out.append(tag + '/>')
            else:
                self.out.append(tag + '>')
                self.struct_nodes(owner, n.kids)
                self.out.append('</%s>' % n.tag)

    def unit(self, e):
        f = e.info
        mapping = {}
        self.units.append(mapping)
        try:
            s = self.capture(self.inside, e)
        finally:
            self.units.pop()
        msgid = f.i18n['translate']
        if not msgid:
            msgid = s if (self.html and e.tag == 'pre') else norm(s)
        data = None
        self.here(e)
        if f.i18n.get('data'):
            data = self.eng.evaluate(self.x(subst(f.i18n['data'])[1]))
        self.out.append(self.translate(msgid, s, mapping, data))
