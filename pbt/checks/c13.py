"""C13: what the compiler rejects is rejected, what it accepts is not called invalid."""
import contextlib
import io
import os
import re
import subprocess
import sys

from .. import cgen, cgraph, cmacro, cvar, env, steps
from ..core import Check
from clang.cindex import Index, TranslationUnit
from hypothesis import strategies as st

# spliced in: half of these make most sources invalid, the rest give warnings or nothing
BITS = ["struct s {", "}", ";", "(", ")", "*", "int", "unsigned", ",", "=", "1", "'a'", "\"x\"", "[2]", "[-1]", ":3", ":77", "typedef",
        "static", "extern", "const", "void", "nope", "long long long", "float long", "struct undefined_", "enum e", "0x", "1.2.3", "09",
        "'ab'", "\"unclosed", "'", "/*", "*/", "//", "#", "#error stop", "\n#warning careful\n", "\n#error stop\n", "\n#if 1\n", "\n#endif\n",
        "\n#else\n", "\n#include \"absent_.h\"\n", "\n#include <absent_.h>\n", "\n#define Q_\n", "\n#define Q_ 1\n#define Q_ 2\n", "\n#define\n",
        "\n#pragma once\n", "\n#pragma pack(3)\n", "\n#pragma clang diagnostic error \"-Wextra-tokens\"\n", "\n#unknown\n", "\n#line 7 \"x.c\"\n",
        "_Static_assert(0, \"no\");", "_Static_assert(1, \"yes\");", "__attribute__((packed))", "__attribute__((nope_))",
        "__attribute__((aligned(3)))", "goto", "return", "\\", "@", "`", "$", "\u00e9", "\0", "\x0c", "??=", "->", "...", "%:", "sizeof(int)"]
UNITS = ["int f(void) { return nope; }\n", "int f(void) { return 1; }\n", "int f(int, int, ...);\n", "f();\n", "x;\n", "int a; int a;\n",
         "int a = 1; int a = 2;\n", "int a; long a;\n", "struct s; struct s v;\n", "struct s { struct s a; };\n", "struct s { void v; };\n",
         "struct s { int a; int a; };\n", "enum e { A }; enum e { B };\n", "enum e { A, A };\n", "enum e { A = 1.5 };\n", "int a[] = {1,2,};\n",
         "int a[];\n", "int a[0];\n", "int a[-1];\n", "char c[2] = \"abcdef\";\n", "int a = 99999999999999999999;\n", "int a = 0x1p;\n",
         "unsigned char c = 300;\n", "int i = \"text\";\n", "int *p = 5;\n", "int i = 1 / 0;\n", "static int f(int);\n", "typedef int t; typedef long t;\n",
         "typedef int t; typedef int t;\n", "struct { int a; };\n", "struct s { };\n", "struct s { int a[]; int b; };\n", "int;\n", ";\n",
         "int f(int a, int a);\n", "int f(a, b) int a, b; { return 1; }\n", "int f(x y);\n", "union u { int a; } struct s { int b; };\n",
         "#if\n#endif\n", "#if 1/0\n#endif\n", "#ifdef\n#endif\n", "#define F(x\n", "#define F(x) #y\n", "#define A A\nint a = A;\n",
         "#undef\n", "#include\n", "/* open", "const int a; int a = 1;\n", "void v;\n", "void f(void v);\n", "int f()[2];\n", "int f()();\n",
         "int (*f(void))(void);\n", "int a[2][];\n", "struct s { int a:0; };\n", "struct s { int a:99; };\n", "struct s { float f:3; };\n",
         "_Bool b = 7;\n", "register int r;\n", "auto int a;\n", "inline int f(void);\n", "int a __attribute__((aligned(8)));\n", "restrict int r;\n",
         "int * restrict p;\n", "_Noreturn void f(void);\n", "signed unsigned x;\n", "asm(\"nop\");\n", "__int128 i;\n", ""]
FLAGS = [[], [], [], [], ["-Werror"], ["-Wall", "-Wextra"], ["-w"], ["-pedantic-errors"], ["-std=c89"], ["-std=c89", "-pedantic-errors"],
         ["-std=c99"], ["-DQ_=nope"], ["-Wall", "-Werror", "-Wno-error=all"], ["-ferror-limit=1"], ["-Wno-everything"], ["-Weverything"],
         ["-include", "stddef.h"], ["-target", "i386-linux"], ["-fsyntax-only"], ["-x", "c++"], ["-ansi"], ["-Wfatal-errors"]]
TOKEN = re.compile(r"\w+|\s+|\"[^\"\n]*\"|.", re.S)


@st.composite
def mutations(draw, src, n):
    """token-level damage"""
    for _ in range(n):
        toks = TOKEN.findall(src)
        k = draw(st.sampled_from(["drop", "drop", "double", "swap", "insert", "insert", "replace", "cut", "splice"]))
        i = draw(st.integers(0, max(0, len(toks) - 1)))
        if k == "insert" or not toks:
            toks.insert(i, draw(st.sampled_from(BITS)))
        elif k == "drop":
            del toks[i]
        elif k == "double":
            toks.insert(i, toks[i])
        elif k == "swap":
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == "replace":
            toks[i] = draw(st.sampled_from(BITS))
        elif k == "cut":
            del toks[i:]
        else:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i:i] = toks[j:j + draw(st.integers(1, 8))]
        src = "".join(toks)
    return src


@st.composite
def sources(draw, big, labels):
    k = draw(st.sampled_from(["prog", "units", "units", "graph", "vars", "macros", "bytes"]))
    labels.add("source:" + k)
    if k == "prog":
        s = draw(cgen.programs(cgen.Opts(functions=True, max_decls=8 if big else 4, max_fields=3)))[1]
    elif k == "units":
        return "".join(draw(st.lists(st.sampled_from(UNITS), min_size=1, max_size=3)))
    elif k == "graph":
        s = "\n".join(draw(cgraph.graphs(4, extras=False))["decls"]) + "\n"
    elif k == "vars":
        s = draw(cvar.units(2))["src"]
    elif k == "macros":
        s = "\n".join(draw(cmacro.macro_sets(4, garbage=True))["lines"]) + "\nint after_;\n"
    else:
        return draw(st.text(st.sampled_from("int struct{};,*=()[]\n#\"'\\/a1 \t\xff\x80\0\r"), max_size=40))
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 4]))
    if n:
        labels.add("mutated")
    return draw(mutations(s, n))


@st.composite
def cases(draw, tier):
    labels = set()
    big = tier == "thorough"
    main = draw(sources(big, labels))
    if draw(st.integers(0, 4)) == 0:
        # diagnostics which are no errors around it
        one = draw(st.sampled_from(["#warning careful\n", "#define AGAIN_ 1\n#define AGAIN_ 2\n", "int late_[];\n", "struct { int unnamed_; };\n",
                                    "static int unused_(void);\n", "#pragma pack(3)\n"]))
        k = draw(st.sampled_from([1, 2, 3, 5, 10, 25, 120]))
        main = one * k + main if draw(st.integers(0, 3)) else main + "\n" + one * k
        labels.add("warnings:%d" % k)
    files = {"a.c": main}
    inputs = ["a.c"]
    shape = draw(st.sampled_from(["one"] * 6 + ["second", "first", "header", "header", "again"]))
    other = draw(st.sampled_from(["int other_;\n", "struct other_ { int a; };\n#define OTHER_ 3\n", ""]))
    if shape == "second":
        files, inputs = {"b.c": other, "a.c": main}, ["b.c", "a.c"]
    elif shape == "first":
        files, inputs = {"b.c": other, "a.c": main}, ["a.c", "b.c"]
    elif shape == "header":
        files, inputs = {"h.h": main, "a.c": '#include "h.h"\n' + other}, ["a.c"]
    elif shape == "again":
        labels.add("after-valid-text-in-the-same-file")
    labels.add("files:" + shape)
    flags = draw(st.sampled_from(FLAGS))
    o = {}
    if draw(st.booleans()):
        o["kinds"] = draw(st.sampled_from(["cdefmstu", "s", "m", "t", "f", "d"]))
    if draw(st.integers(0, 3)) == 0:
        o["symbols"] = ["other_"]
    if draw(st.integers(0, 3)) == 0:
        o["includes"] = True
    for n in ("comments", "doc", "locations"):
        if draw(st.integers(0, 5)) == 0:
            o[n] = True
    return {"files": files, "inputs": inputs, "flags": flags, "opts": o, "shape": shape,
            "process": draw(st.integers(0, 59 if tier == "quick" else 99)) == 1, "labels": sorted(labels)}


def encode(text):
    """bytes of the file: characters below 256 as they are, so that invalid UTF-8 is made too"""
    try:
        return text.encode("latin-1")
    except UnicodeEncodeError:
        return text.encode("utf-8")


def verdict(path, flags):
    """(True: accepted, False: rejected, None: only errors in function bodies, which need not be read; any diagnostics)"""
    v, notes = [], False
    for opt in (TranslationUnit.PARSE_SKIP_FUNCTION_BODIES, 0):
        try:
            tu = Index.create().parse(path, flags, options=opt)
        except Exception:
            return False, True
        notes = notes or len(tu.diagnostics) > 0
        v.append(not any(d.severity >= 3 for d in tu.diagnostics))
    return v[0] if v[0] == v[1] else None, notes


class C13(Check):
    id = "C13"
    rule = "a case counts when the compiler accepts it with a diagnostic or rejects it; distinct by files, flags and options"
    quick, thorough = 3000, 50000
    assumptions = ["errors that are only inside function bodies are outside the property: bodies are not read",
                   "text that is not UTF-8 may fail to be read"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        labels = set(case["labels"])
        with env.case_dir() as d:
            put(d, case["files"])
            paths = [os.path.join(d, n) for n in case["inputs"]]
            with env.oracle("clang"):
                vs = [verdict(p, case["flags"]) for p in paths]
            ok = [x[0] for x in vs]
            if None in ok and False not in ok:
                raise env.Discard("error in a function body only")
            good = all(ok)
            labels.add("accepted" if good else "rejected")
            s = dict(case["opts"], flags=case["flags"], inputs=case["inputs"])
            if case["shape"] == "again":
                put(d, {"a.c": "int before_;\n"})
                self.interfaces(d, s, paths, "int before_;\n", True, set())
                put(d, case["files"])
            text = encode(case["files"]["a.c"])
            try:
                text = text.decode("utf-8") if case["inputs"] == ["a.c"] else None
            except UnicodeDecodeError:
                text = None
            self.interfaces(d, s, paths, text, good, labels)
            if case["process"]:
                self.process(d, s, good, labels)
        return not good or any(x[1] for x in vs), labels

    def interfaces(self, d, s, paths, text, good, labels):
        out = os.path.join(d, "out.py")
        r = env.run_main(steps.argv_of(d, s), out)
        if good:
            env.require(r.exc is not None or r.rc == 0, "the compiler accepts the source, clang2py exits with %r", r.rc)
            env.require(not isinstance(r.exc, env.InvalidTranslationUnitException), "accepted source is reported as invalid: %s", r.exc)
            if r.exc is not None:
                labels.add("internal-error:" + type(r.exc).__name__)
                env.require(isinstance(r.exc, UnicodeDecodeError), "the compiler accepts the source, clang2py fails: %s", (r.tb or "")[-1500:])
        else:
            env.require(r.rc != 0, "the compiler rejects the source, clang2py exits with 0")
        calls = [("translate_files(list)", lambda: env.translate_files(list(paths), None, steps.make_cfg(s))),
                 ("translate_files(list, out)", lambda: env.translate_files(list(paths), io.StringIO(), steps.make_cfg(s)))]
        if len(paths) == 1:
            calls.append(("translate_files(name)", lambda: env.translate_files(paths[0], None, steps.make_cfg(s))))
            calls.append(("translate_files(name, out)", lambda: env.translate_files(paths[0], io.StringIO(), steps.make_cfg(s))))
            if text is not None and "#include" not in text:
                calls.append(("translate(text)", lambda: env.translate(text, None, steps.make_cfg(s))))
                calls.append(("translate(text, out)", lambda: env.translate(text, io.StringIO(), steps.make_cfg(s))))
        for what, f in calls:
            exc = res = None
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    res = f()
                except (Exception, SystemExit) as e:
                    exc = e
            if good:
                env.require(not isinstance(exc, env.InvalidTranslationUnitException), "%s reports an accepted source as invalid: %s", what, exc)
                if exc is not None:
                    labels.add("internal-error:" + type(exc).__name__)
            else:
                env.require(exc is not None, "the compiler rejects the source, %s returns %s", what, type(res).__name__)

    def process(self, d, s, good, labels):
        labels.add("process")
        e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1")
        q = subprocess.run([sys.executable, "-m", "ctypeslib.clang2py"] + steps.argv_of(d, s), env=e, cwd=d, capture_output=True, timeout=100)
        if not good:
            env.require(q.returncode != 0, "the compiler rejects the source, the process exits with 0")
        elif not any(l.startswith("internal-error") for l in labels):
            env.require(q.returncode == 0, "the compiler accepts the source, the process exits with %d: %s", q.returncode,
                        q.stderr.decode("utf-8", "replace")[-600:])


def put(d, files):
    for n, t in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(encode(t))


CHECK = C13()
