"""Template AST and a printer that records the position of every tag.

The AST is the *input* of both sides of a comparison: it is printed to source
text for the real compiler and walked directly by the reference model.
"""

NS_URI = {
    'tal': 'http://xml.zope.org/namespaces/tal',
    'metal': 'http://xml.zope.org/namespaces/metal',
    'i18n': 'http://xml.zope.org/namespaces/i18n',
}
XMLNS = [('xmlns:' + p, u) for p, u in NS_URI.items()]


class T:
    """Raw character data / markup, printed verbatim."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class E:
    """Element.

    attrs: list of (name, decoded value or None); a name such as
    ``tal:content`` is a directive.  form: '' explicit end tag,
    '/' self-closing, 'v' void (no end tag, HTML only).
    """
    __slots__ = ('tag', 'attrs', 'kids', 'form', 'pos', 'epos', 'info')

    def __init__(self, tag, attrs=(), kids=(), form=''):
        self.tag = tag
        self.attrs = list(attrs.items()) if isinstance(attrs, dict) else list(attrs)
        self.kids = [T(k) if isinstance(k, str) else k for k in kids]
        self.form = form
        self.info = None


def esc(v):
    return (v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;'))


def to_source(nodes, attr_sep=' ', rawattr=False):
    """Print nodes; sets .pos (and .epos) of each element."""
    out = []
    line, col = 1, 0

    def put(s):
        nonlocal line, col
        out.append(s)
        n = s.count('\n')
        if n:
            line += n
            col = len(s) - s.rfind('\n') - 1
        else:
            col += len(s)

    def walk(ns):
        for n in ns:
            if n.__class__ is T:
                put(n.s)
                continue
            n.pos = (line, col)
            buf = ['<', n.tag]
            for k, v in n.attrs:
                buf.append(attr_sep)
                if v is None:
                    buf.append(k)
                elif rawattr:
                    buf.append('%s="%s"' % (k, v))
                else:
                    buf.append('%s="%s"' % (k, esc(v)))
            buf.append('/>' if n.form == '/' else '>')
            put(''.join(buf))
            if n.form == '':
                walk(n.kids)
                n.epos = (line, col)
                put('</%s>' % n.tag)
            else:
                n.epos = n.pos
    walk(nodes)
    return ''.join(out)


def xml_doc(nodes):
    """Wrap nodes into a root element declaring the template namespaces."""
    return [E('r', XMLNS, nodes)]


def xml_root(nodes):
    """Declare the template namespaces on the element of nodes itself."""
    return [n if isinstance(n, T) else E(n.tag, XMLNS + list(n.attrs), n.kids, n.form) for n in nodes]
