"""C02: HTML nesting and omitted end tags are resolved the same way everywhere."""
import re

from mc import htmlmodel as hm
from mc import real
from mc.engine import Engine

from .lib import *

ASSUMPTIONS = ['raw-text elements (script, style, ...) contain no markup']


def run(src):
    p = real.make_parser(False, 'page')
    p.parseString(src)
    prog, macros = p.getCode()
    return real.render(prog, macros, Engine({}))


def tag_of(src, pos):
    line, col = pos
    return re.match(r'</?(\w+)', src.splitlines(True)[line - 1][col:]).group(1)


def judge(tokens, rec):
    src, pos = hm.source(tokens)
    try:
        exp = hm.nest(tokens)
    except hm.Misnested as m:
        rec.execution(tokens, final='reject')
        try:
            out = run(src)
        except real.HTMLParseError as e:
            want = {'open': real.OpenTagError, 'void': real.EmptyTagError, 'unopened': real.NestingError}[m.kind]
            if not isinstance(e, want) or (e.lineno, e.offset) != pos[m.index]:
                return {'problem': 'wrong error', 'source': src, 'expected': (m.kind, pos[m.index]),
                        'actual': (type(e).__name__, (e.lineno, e.offset))}
            words = re.findall(r'\w+', str(e))
            if not {tag_of(src, pos[m.index]), '%d' % e.lineno, '%d' % (e.offset + 1)} <= set(words):
                return {'problem': 'message does not name the tag, line and column', 'source': src, 'expected': pos[m.index], 'actual': str(e)}
            return
        except Exception as e:
            return {'problem': 'wrong kind of error: %r' % e, 'source': src}
        return {'problem': 'misnested document accepted (%s)' % m.kind, 'source': src, 'actual': out}
    text = hm.write(exp)
    rec.execution(exp)
    try:
        out = run(src)
    except Exception as e:
        return {'problem': 'document rejected: %s: %s' % (type(e).__name__, e), 'source': src, 'expected': text}
    if out != text:
        return {'problem': 'different output', 'source': src, 'expected': text, 'actual': out}
    if out != src:
        rec.traces += 1
        again = run(out)
        if again != out:
            return {'problem': 'output is not a fixed point', 'source': src, 'first': out, 'second': again}


def tree(alphabet, depth, minlen=1):
    """All token sequences up to depth; rejected prefixes are leaves."""
    alphabet = tuple(alphabet)

    def gen():
        level = [()]
        for n in range(1, depth + 1):
            nxt = []
            for seq in level:
                for t in alphabet:
                    s = seq + (t,)
                    if t[0] == 't' and seq and seq[-1][0] == 't':
                        continue
                    if n >= minlen:
                        yield s
                    if n < depth:
                        try:
                            hm.nest(s)
                        except hm.Misnested:
                            continue
                        nxt.append(s)
            level = nxt
    return gen


def S(tag, attrs=()):
    return ('s', tag, tuple(attrs), False)


def C(tag):
    return ('s', tag, (), True)


def X(tag):
    return ('e', tag)


W, TX, NL = ('t', ' '), ('t', 'x'), ('t', 'x\n ')


def both(*tags):
    for t in tags:
        yield S(t)
        yield X(t)


ALL = sorted(hm.BLOCK | hm.HEADING | {'p', 'b', 'span', 'form', 'section', 'x-y'}) + ['br', 'img', 'hr']


def gen_triples():
    for a in ALL:
        for b in ALL:
            for c in ALL:
                if a in hm.VOID:
                    continue
                yield (S(a), TX, W, S(b), ('t', 'y\n'), S(c), ('t', 'z '))


def gen_closers():
    for a in ALL:
        for b in ALL:
            for c in ALL:
                yield (S(a), TX, W, S(b), ('t', 'y '), X(c), ('t', ' z'))


def gen_void():
    for v in sorted(hm.VOID):
        yield (S(v),)
        yield (C(v), TX)
        yield (X(v),)
        for w in sorted(hm.VOID):
            yield (S(v), W, S(w), TX)
        for a in ALL:
            yield (S(a), TX, W, S(v), W, ('t', 'y'))
            yield (S(a), W, C(v), TX, X(a))
            yield (S(a), X(v), X(a))
            yield (S(v), TX, S(a), TX, X(a))
            yield (S('p'), S('b'), W, S(v), W, S(a), TX)
            yield (S('li'), S(a), S(v), W, S('li'))


FULL = list(both('p', 'h1', 'div', 'li', 'ul', 'td', 'tr', 'table', 'dt', 'b')) + [S('br'), X('br'), C('p'), C('br'), C('li'), NL]
SPACES = [W, ('t', '\n'), ('t', ' \t '), ('t', 'x'), ('t', ' x '), ('t', 'x<!--c-->'), ('t', '<!--c--> '), ('t', '&nbsp; '),
          ('t', '&#32;')]


def spaces(tier):
    deep = tier == 'thorough'
    d = (lambda a, b: b if deep else a)
    return [
        Space('start-triples', gen_triples, judge, 'every three start tags out of all %d tag names, with text and white space' % len(ALL)),
        Space('start-end', gen_closers, judge, 'every two start tags and one end tag out of all tag names'),
        Space('empty', gen_void, judge, 'every empty element, alone, after and before another one, inside, before and after every other tag'),
        Space('white-space', tree(list(both('p', 'li', 'b')) + [S('br')] + SPACES, d(4, 5)), judge,
              '10 white space / text forms between paragraph, list and inline tags, depth %d' % d(4, 5)),
        Space('paragraphs', tree(list(both('p', 'div', 'b', 'h1')) + [NL], d(7, 8)), judge, 'p/div/b/h1 sequences to depth %d' % d(7, 8)),
        Space('lists', tree(list(both('ul', 'li', 'p')) + [W, NL], d(7, 8)), judge, 'ul/li/p sequences to depth %d' % d(7, 8)),
        Space('definitions', tree(list(both('dl', 'dt', 'dd')) + [NL, S('p')], d(6, 7)), judge, 'dl/dt/dd sequences to depth %d' % d(6, 7)),
        Space('tables', tree(list(both('table', 'tr', 'td', 'th')) + [NL], d(6, 7)), judge, 'table/tr/td/th sequences to depth %d' % d(6, 7)),
        Space('mixed', tree(FULL, d(4, 5)), judge, 'all sequences of 26 tokens to depth %d' % d(4, 5)),
    ]
