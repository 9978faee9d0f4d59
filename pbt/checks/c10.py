"""C10: what was translated before, or with what hash seed, does not show."""
from .. import cgen, cgraph, cpp, cvar, env, layout, zygote
from ..core import Check
from hypothesis import strategies as st

TARGETS = [None, None, None, "i386-linux", "x86_64-w64-windows-gnu", "arm-linux-gnueabi", "avr"]
BROKEN = ["struct s { int", "int f(;", "#error x", "#include \"absent.h\"\n", "struct a { struct b c; };", "typedef nope t;"]
FIXED = [  # same names, different meaning
    "struct s_1 { int a; char b; };\ntypedef struct s_1 T_1;\nT_1 fn_1(T_1 *p);\nint v = 3;\n",
    "struct s_1 { long double a; int *b; __int128 c; };\ntypedef struct s_1 T_1;\nint fn_1(void (*cb)(T_1 *));\nchar v[] = \"x\";\n",
    "union s_1 { float a; };\ntypedef long T_1;\nT_1 fn_1(T_1);\ndouble v = 0.5;\n",
    "enum s_1 { A, B };\ntypedef enum s_1 T_1;\nstruct h { T_1 t; struct { int q; } in; struct { char r; } in2[2]; };\n",
    "typedef char *string;\nstring fn_1(const char *a, string b);\nstruct fwd;\nstruct fwd *fn_2(struct fwd *);\n",
    "typedef __WCHAR_TYPE__ wchar_t;\nwchar_t *w(wchar_t *a);\nlong l; unsigned long ul; size_t_ *p;\n".replace("size_t_ *p;", "void *p;"),
    "struct a { struct { int x; }; union { struct { char y; }; long z; }; };\nenum { U1, U2 }; enum { U3 };\ntypedef enum { W } w_t;\n",
]
CPP = ["struct B { int b; };\nclass X { public: int x; void m(); static int s; };\nnamespace n { struct I { B b; X *p; }; }\n",
       "class A { public: int a; }; class B { public: long *b; }; class C { public: float c; };\n"
       "class D { public: char d; }; class E : public A, public B, public C, public D { public: int e; };\n",
       "namespace n { class I { public: double d; }; enum E { P, Q }; }\nstruct s_1 { n::I i; n::E e; };\n"]
CPP.append("class X1 { public: int a; }; class X2 { public: int a; }; class X3 { public: int a; }; class X4 { public: int a; };\n"
           "class B { public: X1 a; X2 b; X3 *c; X4 d; }; class E : public B { public: int e; };\n")
MACROS = ["#define M_1 1\n#define M_2 (M_1 + 2)\n#define M_3 \"a\" \"b\"\n", "#define M_1 \"one\"\n#define M_2 M_1\n#define M_4(x) x\n",
          "#define M_2 undefined_thing\n#define M_1\n#define NULL ((void *)0)\n#define M_3 NULL\n"]


@st.composite
def sources(draw):
    k = draw(st.sampled_from(["prog", "prog", "graph", "vars", "fixed", "fixed", "cpp"]))
    if k == "cpp":
        if draw(st.booleans()):
            return draw(st.sampled_from(CPP)), ".cpp", k
        c = draw(cpp.programs(5, 4))
        return c["header"] + c["src"], ".cpp", k
    if k == "fixed":
        src = draw(st.sampled_from(FIXED))
        if draw(st.booleans()):
            src += draw(st.sampled_from(FIXED)) if draw(st.integers(0, 9)) == 0 else ""
    elif k == "prog":
        src = draw(cgen.programs(cgen.Opts(functions=True, max_decls=6, max_fields=4, wchar=True)))[1]
    elif k == "graph":
        src = "\n".join(draw(cgraph.graphs(4))["decls"]) + "\n"
    else:
        src = draw(cvar.units(3))["src"]
    if draw(st.integers(0, 2)) == 0:
        src = draw(st.sampled_from(MACROS)) + src
    return src, ".c", k


@st.composite
def cases(draw, tier):
    mode = draw(st.sampled_from(["sequence"] * 5 + ["interleaved", "threads"]))
    labels = {mode}
    pool = [draw(sources()) for _ in range(draw(st.integers(1, 3)))]
    steps = []
    cfgs = {}
    n = draw(st.integers(2, 6 if tier == "thorough" else 4))
    for i in range(n):
        src, ext, kind = draw(st.sampled_from(pool))
        labels.add("source:" + kind)
        if mode == "sequence":
            entry = draw(st.sampled_from(["main", "main", "files", "one-file", "string", "namespace"]))
        elif mode == "threads":
            entry = draw(st.sampled_from(["files", "string"]))
        else:
            entry = "files"
        if ext == ".cpp" and entry == "string":
            entry = "files"
        labels.add(entry)
        name = draw(st.sampled_from(["input", "input", "in-put"])) + ext
        inputs, files = [name], {name: src}
        if mode == "threads":
            inputs, files = ["t%d/%s" % (i, name)], {"t%d/%s" % (i, name): src}
        s = dict(entry=entry, inputs=inputs, files=files, labels=[])
        bad = draw(st.integers(0, 19))
        if bad == 19:
            s["files"] = {s["inputs"][0]: draw(st.sampled_from(BROKEN))}
            labels.add("invalid-source")
        elif bad == 18 and entry != "string" and mode == "sequence":
            s["files"] = {s["inputs"][0]: None}
            labels.add("missing-file")
        elif bad == 17 and mode == "sequence":
            s["libs"] = ["no_such_library_"]
            labels.add("missing-library")
        elif bad in (13, 14, 15) and mode != "threads" and entry not in ("string", "one-file"):
            s["files"] = {name: '#include "sub/h.h"\n' + src, "sub/h.h": "struct in_header { int a; struct in_header *n; };\n"
                          "typedef struct in_header hdr_t;\nint fn_h(hdr_t *);\n"}
            s["includes"] = draw(st.booleans())
            labels.add("include")
        elif bad in (11, 12) and mode != "threads" and entry not in ("string", "one-file"):
            s["inputs"] = [name, "second" + ext]
            s["files"]["second" + ext] = "struct second { int a; };\nint fn_second(struct second *s);\n"
            labels.add("two-files")
        # options: fresh ones, or a configuration object used before
        old = sorted(cfgs)
        if entry != "main" and mode == "sequence" and old and draw(st.integers(0, 1)):
            s["cfg"] = draw(st.sampled_from(old))
            s = dict(s, **{k: v for k, v in cfgs[s["cfg"]].items() if k not in s or k in OPTIONS})
            for k in OPTIONS:
                if k not in cfgs[s["cfg"]]:
                    s.pop(k, None)
            labels.add("configuration-reused")
        else:
            o = draw(options(entry, ext))
            if "libs" in s:
                o["libs"] = s["libs"]
            if "includes" in s:
                o["includes"] = s["includes"]
            if entry == "main":
                o.pop("build", None)
                if draw(st.integers(0, 7)) == 0:
                    o["modules"] = draw(st.sampled_from([["ctypes.wintypes"], ["ctypes"], ["no_such_module_"]]))
            s.update(o)
            if entry != "main" and mode == "sequence":
                s["cfg"] = "c%d" % i
                cfgs[s["cfg"]] = o
        for k in ("target", "flags", "kinds", "libs", "preload", "symbols", "regexes", "comments", "locations", "modules", "build"):
            if s.get(k):
                labels.add("option:" + k)
        steps.append(s)
    return {"mode": mode, "steps": steps, "labels": sorted(labels)}


OPTIONS = ["target", "flags", "kinds", "comments", "doc", "locations", "verbose", "symbols", "regexes", "libs", "preload",
           "includes", "build"]


@st.composite
def options(draw, entry, ext):
    o = {}
    t = draw(st.sampled_from(TARGETS))
    if t:
        o["target"] = t
    f = draw(st.sampled_from([[], [], [], ["-m32"], ["-DX=1"], ["-fshort-enums"], ["-Wall"], ["-fpack-struct=2"]] + ([["-std=c99"]] if ext == ".c" else [["-std=c++17"]])))
    if f:
        o["flags"] = f
    k = draw(st.sampled_from([None, None, "cdefmstu", "cdefmstu", "s", "fm", "t", "de"]))
    if k:
        o["kinds"] = k
    for n in ("comments", "doc", "locations"):
        if draw(st.integers(0, 4)) == 0:
            o[n] = True
    sel = draw(st.integers(0, 7))
    if sel == 0:
        o["symbols"] = draw(st.lists(st.sampled_from(["struct_s_1", "T_1", "fn_1", "v", "M_2", "class_E", "absent"]), min_size=1, max_size=3))
    elif sel == 1:
        o["regexes"] = draw(st.lists(st.sampled_from(["T_.*", "^fn", "_1$", "struct", ".*"]), min_size=1, max_size=2))
    x = draw(st.integers(0, 7))
    if x == 0:
        o["libs"] = draw(st.sampled_from([["c"], ["c", "m"], ["m"]]))
    elif x == 1:
        o["preload"] = draw(st.sampled_from([["libm.so.6"], ["libc.so.6", "libm.so.6"]]))
    o["build"] = draw(st.sampled_from(["extend", "assign"]))
    return o


class C10(Check):
    id = "C10"
    rule = ("a case counts when two or more steps of the history translate something and at least two steps differ in source, "
            "options or interface; distinct by whole history")
    quick, thorough = 1600, 30000
    assumptions = ["the reference of a step is the same step in a process that has translated nothing, with another hash seed",
                   "the histories run inside one process of the host; threads use separate configuration objects",
                   "what a failed command leaves in its output file is not compared"]

    def __init__(self):
        self.z = None

    def strategy(self, tier):
        return cases(tier)

    def zygotes(self):
        if self.z is None:
            self.z = [zygote.Zygote(0), zygote.Zygote(4711)]
        return self.z

    def finish(self):
        for z in self.z or ():
            z.close()
        self.z = None

    def enumerate(self, tier):
        out = []
        everything = [(s, ".c") for s in FIXED] + [(s, ".cpp") for s in CPP]
        for a, ea in everything:
            for b, eb in everything:
                out.append({"mode": "sequence", "labels": ["pair"], "steps": [
                    dict(entry="main", inputs=["input" + ea], files={"input" + ea: a}, target="i386-linux", comments=True),
                    dict(entry="main", inputs=["input" + eb], files={"input" + eb: b})]})
        return out if tier == "thorough" else out[::7]

    def run(self, case):
        hist, ref = self.zygotes()
        steps, mode = case["steps"], case["mode"]
        with env.case_dir() as d:
            r = hist.call("sequence", d, steps, mode)
        env.require(r[0] == "ok", "the history did not complete: %s", r)
        results, notes = r[1]
        good = 0
        for i, s in enumerate(steps):
            with env.case_dir_named(d) as d2:
                r = ref.call("alone", d2, s, mode)
            env.require(r[0] == "ok", "step %d alone did not complete: %s", i, r)
            want, got = r[1], results[i]
            env.require(got[0] == want[0] and got[2] == want[2],
                        "step %d ends with %r (%s); alone, in a fresh process, with %r (%s)", i, got[0], got[2], want[0], want[2])
            if got[1] != want[1]:
                raise env.Violation("step %d (%s) gives another text than alone in a fresh process:\n%s" % (
                    i, s["entry"], diff(want[1], got[1])))
            good += want[0] == 0 and want[2] is None
        env.require(not notes, "%s", "; ".join(notes))
        distinct = len({repr(sorted((k, str(v)) for k, v in s.items() if k not in ("cfg", "labels"))) for s in steps})
        return good >= 2 and distinct >= 2, case["labels"]


def diff(a, b):
    import difflib
    return "\n".join(list(difflib.unified_diff(a.split("\n"), b.split("\n"), "alone", "history", lineterm="", n=1))[:30])


CHECK = C10()
