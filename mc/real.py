"""Access to the code under test, through its public API only."""
import io
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def _load():
    # The working tree must be what is imported, and no stale bytecode.
    sys.dont_write_bytecode = True
    for name in [n for n in sys.modules if n == 'zope.tal' or n.startswith('zope.tal.')]:
        del sys.modules[name]
    import zope
    p = os.path.join(SRC, 'zope')
    if p not in list(zope.__path__):
        zope.__path__.insert(0, p)
    import zope.tal.talinterpreter as ti
    if not os.path.realpath(ti.__file__).startswith(os.path.realpath(SRC) + os.sep):
        sys.path.insert(0, SRC)
        raise SystemExit('zope.tal imported from %s, not from %s' % (ti.__file__, SRC))


_load()

from zope.i18nmessageid import Message  # noqa: E402
from zope.tal import taldefs, talgettext  # noqa: E402
from zope.tal.dummyengine import DummyEngine  # noqa: E402
from zope.tal.htmltalparser import HTMLParseError, HTMLTALParser  # noqa: E402
from zope.tal.htmltalparser import EmptyTagError, NestingError, OpenTagError  # noqa: E402
from zope.tal.taldefs import I18NError, METALError, TALError  # noqa: E402
from zope.tal.talgenerator import TALGenerator  # noqa: E402
from zope.tal.talinterpreter import TALInterpreter  # noqa: E402
from zope.tal.talparser import TALParser  # noqa: E402
from xml.parsers.expat import ExpatError  # noqa: E402

from .engine import COMPILER  # noqa: E402

DOCUMENTED = (TALError, HTMLParseError, ExpatError)


class Out:
    """Output stream."""

    def __init__(self):
        self.parts = []
        self.write = self.parts.append

    def getvalue(self):
        return ''.join(self.parts)


def make_parser(xml, file=None, compiler=COMPILER, encoding=None):
    gen = TALGenerator(compiler, xml=1 if xml else 0, source_file=file)
    return TALParser(gen, encoding) if xml else HTMLTALParser(gen)


def compile_source(src, xml, file=None, compiler=COMPILER):
    p = make_parser(xml, file, compiler)
    p.parseString(src)
    return p.getCode()


def render(program, macros, engine, **opts):
    """Output text, or raises whatever rendering raises."""
    out = Out()
    opts.setdefault('wrap', 0)
    TALInterpreter(program, macros, engine, out, **opts)()
    return out.getvalue()


def is_message(v):
    return isinstance(v, Message)
