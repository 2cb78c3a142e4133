"""Model of HTML nesting: which end tags are implied and where they go.

Works on tokens, independent of any parser:
    ('s', tag, attrs, selfclosing)   start tag
    ('e', tag)                       end tag
    ('t', text)                      text or any other markup
"""
VOID = {'base', 'meta', 'link', 'hr', 'br', 'param', 'img', 'area', 'input', 'col',
        'basefont', 'isindex', 'frame'}
HEADING = {'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}
# start tag -> open elements it ends
ENDS = {'tr': {'tr', 'td', 'th'}, 'td': {'td', 'th'}, 'th': {'td', 'th'},
        'li': {'li'}, 'dd': {'dd', 'dt'}, 'dt': {'dd', 'dt'}}
BLOCK = {'blockquote', 'table', 'tr', 'th', 'td', 'thead', 'tfoot', 'tbody', 'noframe',
         'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'div', 'nav'}
TIGHT = HEADING | {'p'} | set(ENDS)
SPACE = ' \t\n\r\f\x0b'


class Misnested(Exception):
    def __init__(self, kind, index):
        Exception.__init__(self, kind, index)
        self.kind, self.index = kind, index


def to_close(stack, tag):
    """How many open elements the start tag ends; None if it is not allowed."""
    if tag in VOID:
        return 0
    if tag in ENDS:
        # the outermost ended element below the innermost unrelated block
        n = 0
        for depth, t in enumerate(reversed(stack), 1):
            if t in ENDS[tag]:
                n = depth
            elif t in BLOCK:
                break
        return n
    if tag in BLOCK or tag == 'p' or tag in HEADING:
        n = 0
        for depth, t in enumerate(reversed(stack), 1):
            if t in BLOCK:
                break
            if t in HEADING:
                return None
            if t == 'p':
                n = depth
        return n
    return 0


def nest(tokens, strict_end=True):
    """Normalized tokens with every end tag explicit.

    Result tokens: ('s', tag, attrs, form) with form '', '/' or 'v'; ('e', tag, implied); ('t', text).
    """
    out = []
    stack = []

    def close(implied):
        tag = stack.pop()
        ws = ''
        if implied and tag in TIGHT and out and out[-1][0] == 't':
            s = out[-1][1]
            keep = s.rstrip(SPACE)
            ws = s[len(keep):]
            if keep:
                out[-1] = ('t', keep)
            else:
                out.pop()
        out.append(('e', tag, implied))
        text(ws)

    def text(s):
        if s:
            if out and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + s)
            else:
                out.append(('t', s))

    for i, tok in enumerate(tokens):
        if tok[0] == 't':
            text(tok[1])
        elif tok[0] == 's':
            tag = tok[1]
            n = to_close(stack, tag)
            if n is None:
                raise Misnested('open', i)
            for _ in range(n):
                close(True)
            if tok[3]:
                out.append(('s', tag, tok[2], '/'))
            elif tag in VOID:
                out.append(('s', tag, tok[2], 'v'))
            else:
                out.append(('s', tag, tok[2], ''))
                stack.append(tag)
        else:
            tag = tok[1]
            if tag in VOID:
                raise Misnested('void', i)
            if tag not in stack:
                raise Misnested('unopened', i)
            while stack[-1] != tag:
                close(True)
            close(False)
    while stack:
        close(True)
    return out


def attr_text(attrs):
    return ''.join(' ' + (k if v is None else '%s="%s"' % (k, v)) for k, v in attrs)


def write(tokens):
    res = []
    for t in tokens:
        if t[0] == 't':
            res.append(t[1])
        elif t[0] == 'e':
            res.append('</%s>' % t[1])
        else:
            res.append('<' + t[1] + attr_text(t[2]) + (' />' if t[3] == '/' else '>'))
    return ''.join(res)


def source(tokens):
    """Source text and the position of each token."""
    pos, res = [], []
    line = col = None
    line, col = 1, 0
    for t in tokens:
        pos.append((line, col))
        if t[0] == 't':
            s = t[1]
        elif t[0] == 'e':
            s = '</%s>' % t[1]
        else:
            s = '<' + t[1] + attr_text(t[2]) + ('/>' if t[3] else '>')
        res.append(s)
        n = s.count('\n')
        if n:
            line += n
            col = len(s) - s.rfind('\n') - 1
        else:
            col += len(s)
    return ''.join(res), pos
