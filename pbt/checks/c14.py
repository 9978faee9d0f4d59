"""C14: the command line, its pipes and the library functions agree."""
import ast
import contextlib
import io
import logging
import os
import re
import subprocess
import sys
import tempfile

from .. import cgen, cgraph, cmacro, cpp, cvar, env, shape, steps
from ..core import Check
from hypothesis import strategies as st

LIBC = ("int abs(int);\ndouble sin(double x);\nunsigned long strlen(const char *s);\nextern char **environ;\n"
        "int no_such_function_(struct zq *p);\nextern int no_such_variable_;\n")
ODD = ["struct { int a; } v_anon;\n", "enum { UA, UB = 7 };\n", "typedef struct { char c; } t_anon;\n", "typedef enum { WA } w_t;\n",
       "union { int a; char b; } *p_anon;\n", "struct o { struct { int a; } in; enum { XA } e; };\n", "const char *s_u = \"\u00e9\u4e2d\";\n",
       "/** doc \u00e9 */ int fn_doc(int a);\n", "char s_q[] = \"quote ' and \\\" and \\\\\";\n"]
BAD = ["struct s {", "int f(nope);", "#error stop\n", "#include \"absent_.h\"\n", "struct s { void v; };"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    src, labels = "", set()
    cplusplus = draw(st.integers(0, 7)) == 7
    if cplusplus:
        c = draw(cpp.programs(6, 4))
        src = c["header"] + c["src"]
        labels.add("c++")
        if draw(st.booleans()):
            src = "\n".join(draw(cmacro.macro_sets(4, garbage=False))["lines"]) + "\n" + src
        if draw(st.integers(0, 3)) == 3:
            labels.add("source:include")
    for k in [] if cplusplus else draw(st.lists(st.sampled_from(["prog", "prog", "graph", "vars", "libc", "odd", "macros", "include"]), min_size=1,
                           max_size=3, unique=True)):
        labels.add("source:" + k)
        if k == "prog":
            src += draw(cgen.programs(cgen.Opts(functions=True, max_decls=9 if big else 6, max_fields=4)))[1]
        elif k == "graph":
            src += "\n".join(draw(cgraph.graphs(5, extras=False))["decls"]) + "\n"
        elif k == "vars":
            src += draw(cvar.units(3))["src"]
        elif k == "libc":
            src = "struct zq;\n" + src + LIBC
        elif k == "macros":
            src = "\n".join(draw(cmacro.macro_sets(5, garbage=False))["lines"]) + "\n" + src
        elif k == "odd":
            src = draw(st.sampled_from(ODD)) + src
    if "source:include" in labels:
        src = '#include "zqheader.h"\n' + src
    bad = draw(st.integers(0, 24)) == 24
    if bad:
        src += draw(st.sampled_from(BAD))
        labels.add("invalid-source")
    o = {}
    t = draw(st.sampled_from([None, None, None, "i386-linux", "x86_64-w64-windows-gnu", "x86_64-linux-gnu"]))
    if t and "__int128" not in src:
        o["target"] = t
    f = draw(st.sampled_from([[], [], [], ["-DZQ=1"], ["-fshort-enums"], ["-std=gnu++14" if cplusplus else "-std=gnu99", "-Wall"], ["-fpack-struct=2"],
                              ["-DA=b", "-UZQ"]]))
    if f:
        o["flags"] = f
        src += "#ifdef ZQ\nstruct if_zq { int a; };\n#endif\n"
    if cplusplus:
        o["flags"] = o.get("flags", []) + ["-x", "c++"]
    k = draw(st.sampled_from([None, None, "cdefmstu", "cdefmstu", "s", "fm", "t", "de", "u"]))
    if k:
        o["kinds"] = k
    for n in ("comments", "doc", "locations", "verbose"):
        if draw(st.integers(0, 4)) == 4:
            o[n] = True
    sel = draw(st.integers(0, 7))
    if sel == 7:
        o["symbols"] = draw(st.lists(st.sampled_from(["abs", "strlen", "UA", "v_anon", "environ", "absent"]), min_size=1, max_size=3))
    elif sel == 6:
        o["regexes"] = draw(st.lists(st.sampled_from(["_1$", "^fn", "struct", ".*", "[a-m]", "^(abs|sin)$"]), min_size=1, max_size=2))
    x = draw(st.integers(0, 5))
    if x == 5:
        o["libs"] = draw(st.sampled_from([["c"], ["c", "m"], ["m", "c"]]))
    elif x == 4:
        o["preload"] = draw(st.sampled_from([["libm.so.6"], ["libc.so.6", "libm.so.6"]]))
    if draw(st.integers(0, 3)) == 3:
        o["includes"] = True
    process = draw(st.integers(0, 11)) == 11
    labels |= {"option:" + n for n in o}
    locale = draw(st.booleans())
    if process:
        labels.add("process")
        if locale and draw(st.booleans()):
            labels.add("not-ascii")
            t = draw(st.sampled_from(["\u00e9", "\u03b1\u03b2", "\u4e2d", "\U0001f600", "\u00df\u20ac"]))
            src += "/* zq %s */\nconst char *zq_text = \"a%s\";\nstruct zq_%s { int a; };\n" % (t, t, t if t.isidentifier() else "x")
    if draw(st.integers(0, 14)) == 14:
        # more than fits into buffers
        n = draw(st.sampled_from([5000, 70000, 140000, 1100000 if big else 200000]))
        pad = draw(st.sampled_from(["/* %s */", "typedef int zq_pad_%d; //%s", "// %s"]))
        line = "x" * draw(st.integers(800, 1100))
        src += "\n".join(pad % ((i, line) if "%d" in pad else line) for i in range(n // 1000))
        src += "\nstruct zq_last { int a; };\nint zq_last_f(struct zq_last *);\n"
        labels.add("large")
    return {"src": src, "opts": o, "build": draw(st.sampled_from(["extend", "assign"])), "bad": bad, "process": process,
            "locale": locale,
            "log": draw(st.sampled_from([None] * 6 + ["--debug", "-q", "--validate 1"])),
            "old": draw(st.sampled_from([0, 0, 1, 20, 2000])),
            "labels": sorted(labels)}


LONG = {"-k": "--kind", "-t": "--target", "-i": "--includes", "-c": "--comments", "-d": "--doc", "-e": "--show-definition-location",
        "-s": "--symbol", "-r": "--regex", "-l": "--include-library", "-p": "--preload", "-v": "--verbose", "-m": "--module"}


def respell(argv):
    """the same command line in its other spellings: long options, joined or separate values, the file first"""
    out, i = [], 0
    while i < len(argv) - 1:
        a = argv[i]
        if a.startswith("--clang-args="):
            v = a.split("=", 1)[1]
            out += ["--clang-args", v] if not v.startswith("-") else ["--clang-args=" + " " * (len(v) % 3) + v.replace(" ", "  ")]
        elif a in ("-i", "-c", "-d", "-e", "-v"):
            out.append(LONG[a])
        elif a in LONG:
            out.append(LONG[a] + "=" + argv[i + 1] if i % 2 else LONG[a][:-1] + "=" + argv[i + 1] if a == "-t" else a + argv[i + 1])
            i += 1
        else:
            out.append(a)
        i += 1
    return [argv[-1]] + out + ["--nm", "nm"]


HEADER = ("#pragma once\nstruct in_header { int a; struct in_header *n; };\ntypedef struct in_header hdr_t;\nint fn_h(hdr_t *);\n"
          "enum { IN_HEADER = 3 };\n#define H_MACRO 12\n")


class Formatting(logging.Handler):
    """formats every record, as the handler of a terminal does"""

    def emit(self, record):
        try:
            self.format(record)
        except RecursionError:
            raise
        except Exception:
            pass  # logging itself reports and goes on


class C14(Check):
    id = "C14"
    rule = ("a case counts when the source is accepted, at least three interfaces were compared and the module exports something; "
            "distinct by source text and options")
    quick, thorough = 1300, 24000
    assumptions = ["names that are made from the file name (of unnamed types), and reported file names, are compared after renaming",
                   "a source with #include is compared between strings, single file names and lists of files only with includes enabled"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        src, o = case["src"], case["opts"]
        self.old = case.get("old", 0)
        with env.case_dir() as d:
            hd = os.path.join(d, "zqinput.c")
            tmp = os.path.join(d, "tmp")
            os.mkdir(tmp)
            with open(hd, "w", encoding="utf-8") as f:
                f.write(src)
            with open(os.path.join(d, "zqheader.h"), "w") as f:
                f.write(HEADER)
            o = dict(o, flags=list(o.get("flags", ())) + ["-I" + d])
            argv = steps.argv_of(d, dict(o, inputs=["zqinput.c"]))
            has_include = "#include" in src

            def cfg():
                return steps.make_cfg(dict(o, build=case["build"]))
            res = {}
            old = sys.stdin, sys.stdout, tempfile.tempdir, os.getcwd()
            tempfile.tempdir = tmp
            try:
                res["file"] = self.main(argv, d)
                with contextlib.redirect_stderr(io.StringIO()):
                    res["stdout"] = self.main(argv, d, stdout=True)
                    res["stdin"] = self.main(argv[:-1] + ["-"], d, stdin=src)
                    res["spelling"] = self.main(respell(argv), d)
                    os.chdir(d)
                    res["relative"] = self.main(argv[:-1] + ["zqinput.c"], d)
                    os.chdir(old[3])
                    res["list"] = self.api(lambda out: env.translate_files([hd], out, cfg()))
                    if not has_include or o.get("includes") or case.get("also"):
                        res["name"] = self.api(lambda out: env.translate_files(hd, out, cfg()))
                        res["string"] = self.api(lambda out: env.translate(src, out, cfg()))
                    if case.get("log"):
                        res["log"] = self.logged(case["log"], argv, d)
                    if case["process"]:
                        res["process"] = self.process(argv, d, None)
                        res["process-stdout"] = self.process(argv, d, None, stdout=True)
                        res["process-stdin"] = self.process(argv[:-1] + ["-"], d, src, stdout=True)
                        if case.get("locale"):
                            # neither the output file nor what is read depends on the encoding of the locale
                            res["process-locale"] = self.process(argv, d, None, locale=True)
                            res["process-stdin-locale"] = self.process(argv[:-1] + ["-"], d, src, locale=True)
            finally:
                sys.stdin, sys.stdout, tempfile.tempdir = old[:3]
                os.chdir(old[3])
            left = [x for x in os.listdir(tmp)]
            env.require(not left, "temporary files are left behind: %s", left)
            want = res["file"]
            for k, r in res.items():
                env.require(r[0] == want[0], "%s ends with %s (%s), file with %s (%s)", k, r[0], r[2], want[0], want[2])
            if want[0] != "ok":
                # whether that is right is C13's subject
                return False, case["labels"] + ["not-translated"]
            texts = {k: self.normal(r[1], d) for k, r in res.items()}
            base = None
            for k, t in texts.items():
                if t == texts["file"]:
                    continue
                env.require(self.comment_lines(t) == self.comment_lines(texts["file"]), "%s has other comments than file: %s", k,
                            sorted(set(self.comment_lines(t)) ^ set(self.comment_lines(texts["file"])))[:4])
                if base is None:
                    base = self.load(texts["file"])
                shape.same_modules(base, self.load(t), "interfaces file and %s" % k)
            # module objects
            labels = set(case["labels"]) | set(res)
            base = self.load(res["file"][1])
            with contextlib.redirect_stderr(io.StringIO()):
                objs = [("list", env.translate_files([hd], cfg=cfg()), base)]
                if "string" in res:
                    objs.append(("string", env.translate(src, cfg=cfg()), self.load(res["string"][1])))
                    objs.append(("name", env.translate_files(hd, cfg=cfg()), self.load(res["name"][1])))
            for k, ns, same in objs:
                self.namespace(k, ns)
                ns2 = dict(ns)
                ns2["__all__"] = sorted(ns["__all__"])
                shape.same_modules(same, ns2, "module object from %s" % k)
        return len(res) >= 3 and len(base["__all__"]) > 0, labels

    def earlier(self, out):
        """what the output file holds before"""
        if os.path.exists(out):
            os.unlink(out)
        if self.old:
            with open(out, "w") as f:
                f.write("old_content_of_the_file = (\n" * self.old)

    def load(self, text):
        ns = env.load(text)
        ns["__all__"] = sorted(ns["__all__"])
        return ns

    def namespace(self, what, ns):
        for n in ns["__all__"]:
            env.require(n in ns and ns[n] is getattr(ns, n), "%s: %s by key is not %s by attribute", what, n, n)
        for n in ("zq_absent_name", "__zq_absent__"):
            env.require(not hasattr(ns, n) and n not in ns, "%s: has %s", what, n)
            try:
                getattr(ns, n)
            except AttributeError:
                pass
            try:
                ns[n]
                raise env.Violation("%s: key %s exists" % (what, n))
            except KeyError:
                pass

    def main(self, argv, d, stdin=None, stdout=False):
        out = os.path.join(d, "out.py")
        self.earlier(out)
        sys.stdin = io.StringIO(stdin) if stdin is not None else io.StringIO("")
        err = io.StringIO()
        try:
            if stdout:
                sys.stdout = buf = io.StringIO()
                with contextlib.redirect_stderr(err):
                    rc = env.clang2py.main(list(argv))
                text = buf.getvalue()
            else:
                with contextlib.redirect_stderr(err):
                    rc = env.clang2py.main(list(argv) + ["-o", out])
                with open(out, encoding="utf-8") as f:
                    text = f.read()
        except SystemExit as e:
            return ["failed", "", "exit %r %s" % (e.code, err.getvalue()[-300:])]
        except Exception as e:
            return ["failed", "", "%s: %s" % (type(e).__name__, e)]
        finally:
            sys.stdout = sys.__stdout__
        return ["ok" if not rc else "failed", text, rc]

    def logged(self, option, argv, d):
        """how much is logged, and other options about the run, do not change the result"""
        root = logging.getLogger()
        level = root.level
        h = Formatting()
        if option == "--debug":
            root.setLevel(logging.DEBUG)
            root.addHandler(h)
        try:
            return self.main(option.split() + list(argv), d)
        finally:
            root.setLevel(level)
            root.removeHandler(h)

    def api(self, f):
        out = io.StringIO()
        try:
            f(out)
        except Exception as e:
            return ["failed", "", "%s: %s" % (type(e).__name__, e)]
        return ["ok", out.getvalue(), None]

    def process(self, argv, d, stdin, stdout=False, locale=False):
        out = os.path.join(d, "out.py")
        self.earlier(out)
        e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1", TMPDIR=os.path.join(d, "tmp"), PYTHONWARNINGS="ignore")
        if locale:
            e.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
            e.pop("PYTHONIOENCODING", None)
        p = subprocess.run([sys.executable, "-m", "ctypeslib.clang2py"] + list(argv) + ([] if stdout else ["-o", out]), env=e, cwd=d,
                           input=(stdin or "").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        text = p.stdout.decode()
        if not stdout and p.returncode == 0:
            env.require(text == "", "writes to standard output although an output file is given: %r", text[:200])
            with open(out, encoding="utf-8") as f:
                text = f.read()
        return ["ok" if p.returncode == 0 else "failed", text, p.stderr.decode()[-300:]]

    def normal(self, text, d):
        text = re.sub(r"(?m)^# (generated by 'clang2py'|flags '.*')\n", "", text)
        text = text.replace(os.path.join(d, "tmp") + os.sep, "").replace(d + os.sep, "").replace("./zqheader", "zqheader")
        text = re.sub(r"stdin[a-z0-9_]{8}(?=[._]|DOT)", "zqinput", text)
        text = text.replace("memory_input", "zqinput")
        i = text.rfind("__all__ = \\")
        if i >= 0:
            names = ast.literal_eval(text[i + len("__all__ = \\"):].strip())
            text = text[:i] + "__all__ = %r\n" % sorted(names)
        return text

    def comment_lines(self, text):
        return sorted(l for l in text.split("\n") if l.startswith("# ") and not l.startswith("# TARGET arch is"))


CHECK = C14()
