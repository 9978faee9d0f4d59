"""Import the code under test from /repo and drive it through its public entry points.

Nothing here looks at how ctypeslib is written: a translation is "files in, Python
text out", through clang2py.main (the command line entry point) or through the
documented functions translate / translate_files.
"""
import contextlib
import io
import logging
import os
import shutil
import sys
import tempfile
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery could not decide this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted)."""


@contextlib.contextmanager
def oracle(what="oracle"):
    """Anything that fails in here is our problem, never a violation."""
    try:
        yield
    except (Violation, HarnessError, Discard):
        raise
    except Exception as e:
        raise HarnessError("%s: %s\n%s" % (what, e, traceback.format_exc())) from e


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


import ctypeslib  # noqa: E402
from ctypeslib import clang2py  # noqa: E402
from ctypeslib.codegen import config as _config  # noqa: E402
from ctypeslib.codegen.codegenerator import translate, translate_files  # noqa: E402,F401
from ctypeslib.codegen.handler import InvalidTranslationUnitException  # noqa: E402,F401

logging.disable(logging.CRITICAL)

if not os.path.abspath(ctypeslib.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("harness: ctypeslib was imported from %s" % ctypeslib.__file__)


_scratch = None


def scratch():
    """a per-process scratch directory, removed by cleanup()"""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="pbt-%d-" % os.getpid(), dir=base))
    return _scratch[1]


def cleanup():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
    _scratch = None


_n = [0]


@contextlib.contextmanager
def case_dir():
    _n[0] += 1
    d = os.path.join(scratch(), "c%d" % _n[0])
    os.mkdir(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def case_dir_named(d):
    """a new directory at a path used before"""
    os.mkdir(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_files(d, files):
    paths = {}
    for name, text in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        paths[name] = p
    return paths


class Result:
    """rc, text, and the exception if any, of one run of the entry point"""

    def __init__(self, rc, text, exc=None, tb=None):
        self.rc, self.text, self.exc, self.tb = rc, text, exc, tb


def run_main(argv, out):
    """clang2py.main(argv + -o out) in process."""
    exc = tb = None
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            rc = clang2py.main(list(argv) + ["-o", out])
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 1
        exc, tb = e, "SystemExit %r: %s" % (e.code, err.getvalue()[-2000:])
    except Exception as e:
        rc, exc, tb = 1, e, traceback.format_exc()
    text = ""
    if os.path.exists(out):
        with open(out, encoding="utf-8") as f:
            text = f.read()
    return Result(rc, text, exc, tb)


def options_argv(kinds=None, flags=(), target=None, includes=False, comments=False,
                 doc=False, locations=False, symbols=(), regexes=(), libs=(), extra=()):
    a = []
    if kinds is not None:
        a += ["-k", kinds]
    if target:
        a += ["-t", target]
    if flags:
        a += ["--clang-args=" + " ".join(flags)]
    if includes:
        a.append("-i")
    if comments:
        a.append("-c")
    if doc:
        a.append("-d")
    if locations:
        a.append("-e")
    for s in symbols:
        a += ["-s", s]
    for s in regexes:
        a += ["-r", s]
    for s in libs:
        a += ["-l", s]
    return a + list(extra)


ALL_KINDS = "cdefmstu"


def generate(src, ext=".c", name="input", **opts):
    """source text -> generated python text, through clang2py.main.  Valid input is
    expected: a failure is a violation."""
    with case_dir() as d:
        p = os.path.join(d, name + ext)
        with open(p, "w", encoding="utf-8") as f:
            f.write(src)
        r = run_main(options_argv(**opts) + [p], os.path.join(d, "out.py"))
    if r.rc != 0 or r.exc is not None:
        raise Violation("valid input was not translated (exit %r): %s" % (r.rc, (r.tb or "")[-1500:]))
    return r.text


_modn = [0]


def load(text, name=None):
    """import a generated module; a failure is a violation"""
    _modn[0] += 1
    ns = {"__name__": name or "generated_%d" % _modn[0]}
    try:
        exec(compile(text, "<generated>", "exec"), ns)
    except Exception as e:
        raise Violation("generated module is not importable: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc(limit=-2)[-800:]))
    return ns


def get(ns, name):
    if name not in ns:
        raise Violation("generated module lacks the name %r" % name)
    return ns[name]
