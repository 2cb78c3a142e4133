"""C26: the driver renders files as the API does; macros are found in other files."""
import contextlib
import io
import os
import sys

from mc import ast, real, ref
from mc.ast import XMLNS
from mc.engine import MISSING, Engine
from zope.tal import driver

from .lib import *

ASSUMPTIONS = ['files live in a scratch directory or are those that come with the package']
NS = ' '.join('%s="%s"' % kv for kv in XMLNS)
SCRATCH = os.environ.get('VERIF_SCRATCH') or '/tmp'


@contextlib.contextmanager
def here():
    """A directory of this worker's own, made current."""
    old = os.getcwd()
    d = os.path.join(SCRATCH, 'd%d' % os.getpid())
    os.makedirs(os.path.join(d, 'sub', 'html.d'), exist_ok=True)
    os.chdir(d)
    try:
        yield os.path.realpath(d) if os.path.realpath(d) == os.getcwd() else os.getcwd()
    finally:
        os.chdir(old)


def put(name, text):
    with open(name, 'w', encoding='utf-8') as f:
        f.write(text)


def drop(*names):
    for n in names:
        with contextlib.suppress(OSError):
            os.unlink(n)


class Shown(Exception):
    pass


def run(fn):
    """-> (kind, text)"""
    try:
        return 'ok', fn()
    except (Exception, SystemExit) as e:
        pos = tuple(getattr(e, k, None) for k in ('lineno', 'offset'))
        return type(e).__name__, pos


def main(argv):
    out = io.StringIO()
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = ['driver'] + argv, out
    try:
        driver.main()
    finally:
        sys.argv, sys.stdout = old
    return out.getvalue()


def direct(text, xml, file, **opts):
    eng = real.DummyEngine()
    prog = real.compile_source(text, xml, file, eng)
    eng.macros = prog[1]
    out = io.StringIO()
    real.TALInterpreter(prog[0], prog[1], eng, out, wrap=0, **opts)()
    return out.getvalue()


# ---- the document mode and the recorded name
FILES = ['a.html', 'a.htm', 'a.HTML', 'a.Htm', 'a.xml', 'a.XML', 'a.pt', 'a.xhtml', 'a.html.xml', 'a.xml.html', 'html', 'a.htmlx', 'a.', 'htm.', '.html', 'sub/a.html',
         'sub/html.d/a', 'sub/a b.html', './a.html', 'sub/../a.htm', 'é.html', 'a.shtml', 'a.htm ',
         # a path that contains that of the package, or its name
         os.path.join('sub', os.path.dirname(os.path.abspath(driver.__file__)).lstrip(os.sep), 'a.html'), 'zope/tal/a.html', 'tests/input/a.html']
TEXTS = ['<p %s>x<br/></p>' % NS, '<P %s>x</P>' % NS, '<p %s tal:content="position:">x</p>' % NS, '<p %s a=\'"\' b="x">x</p>' % NS, '<p>x<br></p>', '<p>a<p>b',
         '<?xml version="1.0"?>\n<p %s>\n<b tal:content="position:"/></p>' % NS, '<p %s tal:bogus="x">y</p>' % NS, '<p %s>\n\n<b tal:content="boom">y</b></p>' % NS,
         '<p %s><b></b>&lt;<i checked="checked" tal:attributes="checked default"/></p>' % NS]


def gen_modes():
    for f in range(len(FILES)):
        for mode in (None, 'html', 'xml'):
            for t in range(len(TEXTS)):
                for ab in (0, 1):
                    yield f, mode, t, ab


def judge_modes(case, rec):
    f, mode, t, ab = case
    name = FILES[f]
    text = TEXTS[t]
    with here() as d:
        given = os.path.join(d, name) if ab else name
        full = os.path.abspath(given)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        put(given, text)
        try:
            xml = mode == 'xml' or mode is None and os.path.splitext(name)[1].lower() not in ('.html', '.htm')
            exp = run(lambda: direct(text, xml, full))
            opt = {'html': ['-H'], 'xml': ['--xml'], None: []}[mode]
            got = run(lambda: main(opt + [given]))

            def api():
                out = io.StringIO()
                driver.interpretit(driver.compilefile(given, mode), stream=out)
                return out.getvalue()
            got2 = run(api)
        finally:
            drop(given)
    rec.execution([('file', name, mode, ab)], [exp], final=text)
    rec.traces += 1
    for g in (got, got2):
        if g != exp:
            return {'problem': 'driver and interpreter disagree', 'file': given, 'mode': mode, 'text': text, 'expected': exp, 'actual': g}


# ---- every set of switches
SWITCH = {'l': (['-l'], ['--lenient'], dict(strictinsert=0)), 'm': (['-m'], ['--macro-only'], dict(tal=0)), 't': (['-t'], ['--show-tal'], dict(showtal=1)),
          'i': (['-i'], ['--show-i18n'], dict(i18nInterpolate=0)), 'a': (['-a'], ['--annotate'], dict(sourceAnnotations=1))}
DOCS = ['<p %s><b tal:content="structure string:&lt;i>x">y</b></p>', '<p %s><b tal:content="structure string:&lt;i a=1>x&lt;/i>">y</b></p>',
        '<p %s><b metal:define-macro="m" tal:content="string:x">A<i metal:define-slot="s">B</i></b><u metal:use-macro="m"><i metal:fill-slot="s" tal:repeat="x python:(1,2)">F</i></u></p>',
        '<p %s><b i18n:translate="">text <i i18n:name="n" tal:content="string:v">w</i></b></p>', '<p %s title="t" i18n:attributes="title" tal:define="x string:1"><tal:x replace="x"/></p>',
        '<p %s tal:on-error="string:oops"><b tal:content="nowhere">x</b></p>', '<p %s><b tal:condition="nothing">never</b>\n<i\n a="1" tal:attributes="a string:2; b string:3">x</i></p>',
        '<p %s><b metal:use-macro="none"/></p>']


def gen_switches():
    for k in range(6):
        for sw in itertools.combinations('lmtia', k):
            for t in range(len(DOCS)):
                for name in ('p.html', 'p.xml', 'test23.html'):
                    for long in (0, 1):
                        for last in (0, 1):
                            yield sw, t, name, long, last


def judge_switches(case, rec):
    sw, t, name, long, last = case
    text = DOCS[t] % NS
    opts = {}
    argv = []
    for s in sw:
        opts.update(SWITCH[s][2])
        argv += SWITCH[s][long]
    with here() as d:
        put(name, text)
        try:
            exp = run(lambda: direct(text, name == 'p.xml', os.path.join(d, name), **opts))
            got = run(lambda: main([name] + argv if last else argv + [name]))
            code = run(lambda: main(argv + ['-s', name]))

            def api():
                out = io.StringIO()
                driver.interpretit(driver.compilefile(name), stream=out, **opts)
                return out.getvalue()
            got2 = run(api)
        finally:
            drop(name)
    rec.execution([('switches',) + sw], [exp], final=(text, name))
    for g in (got, got2):
        if g != exp:
            return {'problem': 'driver and interpreter disagree', 'switches': argv, 'file': name, 'text': text, 'expected': exp, 'actual': g}
    import ast as pyast
    want = real.compile_source(text, name == 'p.xml', os.path.join(d, name), real.DummyEngine())
    rec.traces += 1
    if code[0] != 'ok' or pyast.literal_eval(code[1]) != want:
        return {'problem': 'shown code is not the compiled code', 'switches': argv, 'file': name, 'text': text, 'actual': code}


# ---- the package's own files, by their names within it
PKG = os.path.dirname(driver.__file__)
# these are rendered with an engine of their own
SPECIAL = ['test%d.html' % k for k in (23, 24, 26, 27, 28, 29, 30, 31, 32)]
OWN = '<p %s>own <b tal:content="position:"/></p>' % NS


def gen_bundled():
    names = sorted(os.path.join(a, f)[len(PKG) + 1:] for a, _, fs in os.walk(PKG) for f in fs if f.endswith(('.html', '.xml', '.htm', '.pt')))
    for n in names:
        if os.path.basename(n) in SPECIAL:
            continue
        for sw in ('', 'a', 'm'):
            for shadow in (0, 1):
                yield n, sw, shadow


def judge_bundled(case, rec):
    name, sw, shadow = case
    opts, argv = {}, []
    for s in sw:
        opts.update(SWITCH[s][2])
        argv += SWITCH[s][0]
    with open(os.path.join(PKG, name), 'rb') as f:
        text = f.read()
    xml = not name.endswith(('.html', '.htm'))
    with here() as d:
        if shadow:
            os.makedirs(os.path.dirname(name) or '.', exist_ok=True)
            put(name, OWN)
        try:
            exp = run(lambda: direct(OWN if shadow else text if xml else text.decode('utf-8'), xml, os.path.join(d, name) if shadow else name, **opts))
            got = run(lambda: main(argv + [name]))
            full = run(lambda: main(argv + [os.path.join(PKG, name)]))
        finally:
            drop(name)
    rec.execution([('bundled', name, sw, shadow)], [exp])
    rec.traces += 1
    if got != exp:
        return {'problem': 'driver and interpreter disagree', 'file': name, 'expected': exp, 'actual': got}
    if not shadow and full != exp:
        return {'problem': 'driver and interpreter disagree', 'file': os.path.join(PKG, name), 'expected': exp, 'actual': full}


def gen_usage():
    for argv in itertools.product(('', '-z', 'a.html', 'b.html', '--lenient'), repeat=2):
        yield argv


def judge_usage(argv, rec):
    args = [a for a in argv if a]
    files = [a for a in args if a[0] != '-']
    with here():
        put('a.html', '<b>A</b>')
        put('b.html', '<b>B</b>')
        err = sys.stderr
        sys.stderr = io.StringIO()
        try:
            got = run(lambda: main(args))
        finally:
            sys.stderr = err
            drop('a.html', 'b.html')
    rec.execution([argv], [got])
    if '-z' in args or len(files) != 1:
        good = got[0] == 'SystemExit'
    else:
        good = got == ('ok', '<b>%s</b>' % files[0][0].upper())
    if not good:
        return {'problem': 'command line', 'arguments': args, 'actual': got}


# ---- macros in other files
class PosEngine(Engine):
    """Model side: the bundled engine's string: and position: expressions."""

    def _eval(self, kind, cexpr):
        x = cexpr[1]
        if x.startswith('string:'):
            return x[7:]
        if x == 'position:':
            return '%s (%s,%s)' % ((self.source_file,) + tuple(self.position))
        if x == 'exists:macroname':
            return self.lookup('macroname') is not MISSING
        if x == 'macroname':
            return self.getValue('macroname')
        raise ref.Reject('expr', None, x)


EXT = ['html', 'xml']
REFS = ['%(f)s/m1', '%(f)s/m2', './%(f)s/m1', 'sub/../%(f)s/m1', '%(d)s/%(f)s/m1', '%(f)s/none', '%(f)s/M1', 'm1', 'nofile.html/m1', '%(f)s/', 'sub/%(f)s/m1']


def gen_external():
    for page in EXT:
        for lib in EXT:
            for lib2 in EXT:
                for r in range(len(REFS)):
                    for r2 in (0, 2, 4, 5, 7):
                        for err in (0, 1):
                            yield page, lib, lib2, r, r2, err


def judge_external(case, rec):
    page, lib, lib2, r, r2, err = case
    pos = lambda: E('q', [('tal:content', 'position:')])
    name = lambda: E('q', [('tal:condition', 'exists:macroname'), ('tal:content', 'macroname')])
    with here() as d:
        f1, f2 = 'l1.' + lib, 'l2.' + lib2
        x1 = REFS[r] % {'f': f1, 'd': d}
        x2 = REFS[r2] % {'f': f2, 'd': d}
        m1 = lambda s, *k: E('m', [('metal:define-macro', 'm1')], [T(s), pos(), name(), E('s', [('metal:define-slot', 'a')], ['slot'])] + list(k))
        docs = {
            f2: [E('lib', (), [m1('two\n')])],
            f1: [E('lib', (), [m1('one\n', E('u', [('metal:use-macro', x2)], [E('f', [('metal:fill-slot', 'a')], ['F2', pos()])]), pos(), name()),
                               T('\n'), E('m', [('metal:define-macro', 'm2')], ['em', pos()])])],
            'sub/' + f1: [E('lib', (), [m1('sub\n')])],
            'page.' + page: [E('pg', (), [m1('local\n'), E('w', [('tal:on-error', 'string:failed')] if err else (), [
                T('\n '), E('u', [('metal:use-macro', x1)], [E('f', [('metal:fill-slot', 'a')], ['F1', pos()])])]), pos(), name()])],
        }
        src, tpl = {}, {}
        for f, nodes in docs.items():
            if f.endswith('xml'):
                nodes = ast.xml_doc(nodes)
            src[f] = ast.to_source(nodes)
            tpl[f] = ref.Template(nodes, f.endswith('xml'), os.path.join(d, f))
            put(f, src[f])

        class Macros(dict):
            def get(self, x, default=None):
                # up to the last slash it is a file
                if '/' in x:
                    f, n = x.rsplit('/', 1)
                    if not os.path.exists(f):
                        return default
                    t = tpl[os.path.relpath(f, d)]
                else:
                    n = x
                    t = tpl['page.' + page]
                return t.macros.get(n, default)
        eng = PosEngine({}, Macros())
        exp = diff.run(lambda: ref.Render(tpl['page.' + page], eng, is_message=real.is_message).run(), eng)

        def api():
            out = io.StringIO()
            driver.interpretit(driver.compilefile('page.' + page), stream=out)
            return out.getvalue()
        try:
            got = run(api)
            again = run(lambda: main(['page.' + page]))
        finally:
            drop(*docs)
    rec.execution([(case,)], final=exp.error or exp.text)
    rec.traces += 1
    for g in (got, again):
        if (exp.error is None) != (g[0] == 'ok') or exp.error is None and g[1] != exp.text or exp.error == 'METAL' and g[0] != 'METALError':
            return {'problem': 'macro in another file', 'source': src, 'expected': exp.error or exp.text, 'actual': g}


def spaces(tier):
    return [
        Space('modes', gen_modes, judge_modes, '%d file names x 3 modes x 10 templates, relative and absolute, command line and functions' % len(FILES)),
        Space('switches', gen_switches, judge_switches, 'every set of 5 switches, short and long, before and after the file x 8 templates x HTML/XML and a name with an engine of its own; shown code'),
        Space('bundled', gen_bundled, judge_bundled, 'every template in the package by its name in it and by its full name, with and without a file of that name '
              'in the current directory, 3 sets of switches'),
        Space('usage', gen_usage, judge_usage, 'all pairs of 5 arguments'),
        Space('external', gen_external, judge_external, 'page, library and second library each HTML or XML x 11 references x 5 references in the library x on-error'),
    ]
