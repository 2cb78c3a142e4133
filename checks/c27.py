"""C27: server-side scripts run where they stand, with their own text."""
import io
import sys

from mc import real
from mc.engine import Engine

from . import dress
from .lib import *
from .lib import rejected
from .terms import Auto

ASSUMPTIONS = ['TAL statements on a server-side script element are not in the space',
               'tal:script is not combined with void or self-closing elements',
               'the engine decides which languages it understands']
# ---- which elements are scripts, and what they are given
TYPES = [None, '', 'text/server-python', 'text/server-', 'text/server', 'text/server-x y', 'text/javascript', 'text/serverside', 'server-python',
         'Text/Server-x', ' text/server-x', 'text/server-é']
OTHER = [(), (('id', 'i'),), (('id', 'i'), ('src', 's')), (('language', 'x'), ('id', 'i'))]
TEXTS = ['', ' ', 'code', ' a\n  b\n', 'if a < b and c > d: e', 'x & y &amp; &lt;', '"q" \'r\'', '<b>t</b>', '</b>', '<!-- c -->', '<!-- a < b -->\n', '${n}', '<br>',
         'x </d> y', '\t', '<![CDATA[x]]>', '<p>', ']]>', 'é', '<x tal:content="t">']


def gen_types():
    for ty in TYPES:
        for o in range(len(OTHER)):
            for pos in range(len(OTHER[o]) + 1):
                for t in range(len(TEXTS)):
                    yield ty, o, pos, t


def judge_types(case, rec):
    ty, o, pos, t = case
    for tag in ('script', 'SCRIPT', 'p'):
        a = list(OTHER[o])
        if ty is not None:
            a.insert(pos, ('type', ty))
        text = TEXTS[t]
        if tag == 'p' and ('</' in text or '<p' in text or '<!' in text or '<x' in text or '&' in text):
            continue
        if tag == 'SCRIPT':
            e = E('script', a, [T(text)])
        else:
            e = E(tag, a, [T(text)])
        nodes = [E('div', (), [T('a\n'), e, T('\nb'), E('q', [('tal:content', 't')])])]
        try:
            sc = scenario(nodes, False)
        except diff.Rejected as ex:
            return rejected(ex)
        if tag == 'SCRIPT':
            sc.src['page'] = src = sc.src['page'].replace('<script', '<SCRIPT').replace('</script', '</SCRIPT').replace('type=', 'TYPE=')
            sc.prog['page'] = real.compile_source(src, False, 'page')
        d = diff.check(sc, {'t': 'T'}, rec)
        if d:
            return d


# ---- tal:script: the rendered content is the code
PARTS = ['txt', 'cont', 'repl', 'struct', 'att', 'loop', 'cond', 'omit', 'unit', 'use', 'scr', 'err', 'com']


def part(p, i):
    n = str(i)
    return {
        'txt': lambda: T(' t%d <b>&amp;</b>\n' % i), 'com': lambda: T('<!-- c%d -->' % i),
        'cont': lambda: E('c', [('tal:content', 't' + n)], ['x']), 'repl': lambda: E('c', [('tal:replace', 't' + n)], ['x']),
        'struct': lambda: E('c', [('tal:replace', 'structure s' + n)], ['x']), 'att': lambda: E('c', [('a', 'b'), ('tal:attributes', 'a k%s; d l%s' % (n, n))]),
        'loop': lambda: E('c', [('tal:repeat', 'y r' + n)], [E('d', [('tal:content', 'v:y')])]), 'cond': lambda: E('c', [('tal:condition', 'f')], ['never']),
        'omit': lambda: E('c', [('tal:omit-tag', '')], ['om']), 'unit': lambda: E('c', [('i18n:translate', '')], ['un', E('d', [('i18n:name', 'n')], ['na'])]),
        'use': lambda: E('c', [('metal:use-macro', 'm')], [E('d', [('metal:fill-slot', 'a')], ['fi', n])]),
        'scr': lambda: E('c', [('tal:script', 'text/inner')], ['in', E('d', [('tal:content', 't' + n)])]),
        'err': lambda: E('c', [('tal:on-error', 'h')], ['lost', E('d', [('tal:content', 'boom')])]),
    }[p]()


FRAMES = ['', 'loop', 'err', 'unit', 'name', 'macro', 'fill', 'false', 'content', 'default']


def gen_inner(n):
    def gen():
        for k in range(0, n + 1):
            for ps in itertools.product(PARTS, repeat=k):
                for fr in FRAMES:
                    for tag in ('x', 'tal:x', 'tal:o'):
                        yield ps, fr, tag
    return gen


def judge_inner(case, rec):
    ps, fr, tag = case
    for xml in (False, True):
        a = [('tal:script', 'lang')]
        if fr == 'content':
            a.append(('tal:content', 't9'))
        elif fr == 'default':
            a.append(('tal:content', 'df'))
        if tag == 'tal:x':
            a = [(k[4:], v) for k, v in a]
        elif tag == 'tal:o':
            tag, a = 'o', a + [('tal:omit-tag', '')]
        s = E(tag, a, [part(p, i) for i, p in enumerate(ps)])
        mac = [E('m', [('metal:define-macro', 'm')], ['A', E('s', [('metal:define-slot', 'a')], ['B'])])]
        if fr == 'loop':
            body = [E('w', [('tal:repeat', 'z r9')], ['\n ', s])]
        elif fr == 'err':
            body = [E('w', [('tal:on-error', 'h')], [s, E('b', [('tal:content', 'boom')])])]
        elif fr == 'unit':
            body = [E('w', [('i18n:translate', '')], ['u ', s])]
        elif fr == 'name':
            body = [E('w', [('i18n:translate', '')], ['u ', E('v', [('i18n:name', 'v')], [s])])]
        elif fr == 'macro':
            body = [E('m', [('metal:define-macro', 'mm')], [s]), E('w', [('metal:use-macro', 'mm')])]
        elif fr == 'fill':
            body = [E('w', [('metal:use-macro', 'm')], [E('f', [('metal:fill-slot', 'a')], [s])])]
        elif fr == 'false':
            body = [E('w', [('tal:condition', 'f')], [s])]
        else:
            body = [s]
        nodes = [E('page', (), mac + body + [E('q', [('tal:content', 'last')])])]
        try:
            sc = scenario(nodes, xml)
        except diff.Rejected as ex:
            return rejected(ex)
        env = Auto(f=0, boom=Raise(), df=DEFAULT)
        d = diff.check(sc, env, rec, watch=True)
        if d:
            return d
        n = sc.expect(env).eng.nevals
        if fr == 'err' or len(ps) < 2:
            for k in range(1, n + 1):
                d = diff.check(sc, env, rec, watch=True, fail_at=(k,))
                if d:
                    return d


# ---- the bundled engine runs Python
CODE = [('', ''), ('print("a")', 'a\n'), ('print("<b>&amp;")', '<b>&amp;\n'), ('x = 1\nprint(x)', '1\n'), ('for i in range(3):\n    print(i)', '0\n1\n2\n'),
        ('if 1 < 2 and 3 > 2:\n  print("y")\nelse:\n  print("n")', 'y\n'), ('pass', ''), ('print(1); print(2)', '1\n2\n'),
        ('def f(n):\n    return n * 2\nprint(f(4))', '8\n'), ('import sys\nsys.stdout.write("w")', 'w'),
        ('print("c")  # -->', 'c\n')]
WRAP = ['%s', '<!--%s-->', '\n%s\n', '\n\n%s\n  \n', '<!--\n%s\n-->', ' <!-- \n%s\n --> ', 'IND2', 'INDT', 'INDC', 'GAPS']


def wrapped(code, w):
    if w == 'IND2':
        return '\n' + '\n'.join('  ' + x for x in code.split('\n')) + '\n'
    if w == 'INDT':
        return '\n' + '\n'.join('\t' + x for x in code.split('\n')) + '\n  '
    if w == 'INDC':
        return '<!--\n' + '\n'.join('    ' + x for x in code.split('\n')) + '\n-->'
    if w == 'GAPS':
        return code.replace('\n', '\n   \n\n')
    return w % code


def gen_python():
    for c in range(len(CODE)):
        for w in WRAP:
            for c2 in range(len(CODE)):
                yield c, w, c2


def judge_python(case, rec):
    c, w, c2 = case
    if not CODE[c][0] and w[0] == 'I':
        return
    one, two = wrapped(CODE[c][0], w), CODE[c2][0]
    for xml in (False, True):
        esc = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
        if xml:
            if '<!--' in one:
                continue
            # in XML the code is what the content renders to, so only code without markup characters
            if esc(one) != one or esc(two) != two:
                continue
            ns = ' '.join('%s="%s"' % kv for kv in dress.XMLNS)
            src = '<a %s>x<b tal:script="text/server-python">%s</b><tal:c script="text/server-python">%s</tal:c></a>' % (ns, one, two)
            want = '<a>x<b>%s</b>%s</a>' % (CODE[c][1], CODE[c2][1])
        else:
            src = '<a>x<script type="text/server-python">%s</script><script type="text/server-python">%s</script></a>' % (one, two)
            want = '<a>x%s%s</a>' % (CODE[c][1], CODE[c2][1])
        eng = real.DummyEngine()
        prog = real.compile_source(src, xml, 'page', eng)
        rec.execution([('code', one), ('code', two)], final=want)
        try:
            got = real.render(*prog, eng)
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        if got != want:
            return {'problem': 'result of Python code', 'source': src, 'expected': want, 'actual': got}


FAIL = ['1/0', 'print("lost")\n1/0', 'raise SystemError(3)', 'x = (', 'import sys\nsys.stdout.write("lost")\nundefined', 'sys', 'def f():\n    print("lost")\n    f2()\nf()']


def gen_pyfail():
    for f in range(len(FAIL)):
        for w in WRAP:
            for c in range(len(CODE)):
                for c2 in range(len(CODE)):
                    yield f, w, c, c2


def judge_pyfail(case, rec):
    f, w, c, c2 = case
    s = lambda code: '<script type="text/server-python">%s</script>' % code
    src = '<a>%s<b tal:on-error="string:H"><u>part</u>%s</b>%s<b tal:content="string:end"></b></a>' % (s(CODE[c][0]), s(wrapped(FAIL[f], w)), s(CODE[c2][0]))
    want = '<a>%s<b>H</b>%s<b>end</b></a>' % (CODE[c][1], CODE[c2][1])
    eng = real.DummyEngine()
    prog = real.compile_source(src, False, 'page', eng)
    rec.execution([('code', CODE[c][0]), ('fail', FAIL[f], w), ('code', CODE[c2][0])], final=want)
    old = sys.stdout
    sys.stdout = mine = io.StringIO()
    try:
        got = real.render(*prog, eng)
        same = sys.stdout is mine
    except Exception as e:
        got = '%s: %s' % (type(e).__name__, e)
        same = sys.stdout is mine
    finally:
        sys.stdout = old
    if got != want or not same or mine.getvalue():
        return {'problem': 'failing Python code', 'source': src, 'expected': want, 'actual': got, 'standard output restored': same, 'printed': mine.getvalue()}


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('types', gen_types, judge_types, '12 types x 4 attribute sets at every place x 20 contents x 3 tags'),
        Space('content', gen_inner(4 if deep else 3), judge_inner, '<=%d of 13 parts x 10 surroundings x 3 tags; faults' % (4 if deep else 3)),
        dress.space(5 if deep else 4, dress.has('scr', 'script'), ' with code', watch=True),
        dress.fault_space(4 if deep else 3, dress.has('scr', 'script'), ' with code', watch=True),
        Space('python', gen_python, judge_python, '%d programs in %d layouts, followed by each of them' % (len(CODE), len(WRAP))),
        Space('python-failures', gen_pyfail, judge_pyfail, '7 failing programs in %d layouts between every two of %d' % (len(WRAP), len(CODE))),
    ]
