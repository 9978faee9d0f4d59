"""C06: function prototypes, callbacks and binding to libraries."""
import ctypes
import itertools
import os
import subprocess

from .. import cgen, env, layout
from ..core import Check
from hypothesis import strategies as st

NFN = 10
# libraries: (directory, base name, exported functions, exported variables, hidden functions)
POOL = [
    ("d0", "liba.so", [0, 1, 2], [0], [3]), ("d0", "libb.so", [1, 3, 4], [1], [0]),
    ("d0", "libc1.so", [5], [], []), ("d1", "liba.so", [0, 4, 6], [0, 2], [1]),
    ("d1", "libb.so", [2, 3, 7], [], [4]), ("d1", "lib with space.so", [0, 8], [3], []),
    ("d2", "liba.so", [9, 0, 5], [1], []), ("d2", "lib'q.so", [6, 7], [2], [8]),
    ("d2", "libempty.so", [], [], [0, 1, 2]), ("d0", "noprefix", list(range(NFN)), [0, 1, 2, 3], []),
]


def value(k, j):
    return 1000 + k * 100 + j


class Pool:
    def __init__(self):
        self.dir = None

    def get(self):
        if self.dir is None or not os.path.isdir(self.dir):
            d = os.path.join(env.scratch(), "pool")
            with env.oracle("building libraries"):
                for k, (sub, base, fns, vs, hid) in enumerate(POOL):
                    os.makedirs(os.path.join(d, sub), exist_ok=True)
                    src = os.path.join(d, "l%d.c" % k)
                    with open(src, "w") as f:
                        for j in fns:
                            f.write("int fn_%d(int a) { return %d + a; }\n" % (j, value(k, j)))
                        for j in vs:
                            f.write("int var_%d = %d;\n" % (j, value(k, j)))
                        for j in hid:
                            f.write("%s int fn_%d(int a) { return -1; }\n" % (
                                "static __attribute__((used))" if j % 2 else '__attribute__((visibility("hidden")))', j))
                        f.write("extern int absent_%d(void); int (*use_%d)(void) = 0; static int keep;\n" % (k, k))
                    subprocess.run(["gcc", "-shared", "-fPIC", "-O0", "-o", os.path.join(d, sub, base), src], check=True)
            self.dir = d
        return self.dir


POOLED = Pool()

SCALARS = {"?": [True, False], "b": [-128, 127, 0, -1], "B": [0, 255], "h": [-32768, 32767], "H": [0, 65535],
           "i": [-2 ** 31, 2 ** 31 - 1, -1], "I": [0, 2 ** 32 - 1], "l": [-2 ** 63, 2 ** 63 - 1, -5],
           "L": [0, 2 ** 64 - 1], "q": [-2 ** 63, 2 ** 63 - 1], "Q": [0, 2 ** 64 - 1], "f": [0.5, -1024.0],
           "d": [1e300, -0.1], "c": [b"\x00", b"\xff", b"a"]}


def exercise(ft, salt):
    """call a scalar callback type through C's calling convention and back"""
    codes = [layout.simple_code(a) for a in ft._argtypes_]
    rc = layout.simple_code(ft._restype_) if ft._restype_ is not None else "v"
    if rc != "v" and rc not in SCALARS or any(c not in SCALARS for c in codes):
        return False
    args = [SCALARS[c][(salt + i) % len(SCALARS[c])] for i, c in enumerate(codes)]
    want = None if rc == "v" else SCALARS[rc][salt % len(SCALARS[rc])]
    seen = []

    def py(*a):
        seen.append(list(a))
        return ord(want) if isinstance(want, bytes) else want
    if rc == "c":
        return False
    fn = ft(py)
    got = fn(*args)
    env.require(seen == [args], "callback %s(%s) received %r for %r", rc, codes, seen, args)
    env.require(got == want, "callback %s returned %r for %r", rc, got, want)
    return True


@st.composite
def bindings(draw):
    libs = draw(st.lists(st.integers(0, len(POOL) - 1), max_size=5))
    fns = draw(st.lists(st.integers(0, NFN - 1), min_size=1, max_size=NFN, unique=True))
    vs = draw(st.lists(st.integers(0, 3), max_size=4, unique=True))
    return {"kind": "bind", "libs": libs, "fns": fns, "vars": vs, "order": draw(st.booleans()),
            "std": draw(st.sampled_from([[], [], [], ["c"], ["m"]])), "doc": draw(st.booleans())}


@st.composite
def swaps(draw):
    """the library is another version, which lacks some functions, when the module is imported"""
    ks = [k for k in range(len(POOL)) if POOL[k][2]]
    return {"kind": "swap", "first": draw(st.sampled_from(ks)), "second": draw(st.integers(0, len(POOL) - 1)),
            "fns": draw(st.lists(st.integers(0, NFN - 1), min_size=1, max_size=NFN, unique=True)),
            "doc": draw(st.booleans()), "comments": draw(st.booleans()), "locations": draw(st.booleans())}


SWAPS = itertools.count()


class C06(Check):
    id = "C06"
    rule = ("a unit counts when it declares a function with at least one parameter that is not a plain int, or a "
            "binding case when two of its libraries export the same declared function, share a base name, or some "
            "declared function is exported by none; distinct by source text and library list")
    quick, thorough = 3600, 60000
    assumptions = ["libclang's canonical function types are the reference for prototypes",
                   "parameters of variadic functions beyond the declared ones are not checked",
                   "assembler labels, _Complex parameters and names that are Python keywords are not generated"]

    def strategy(self, tier):
        o = cgen.Opts(functions=True, flexible=False, max_decls=9)
        if tier == "thorough":
            o = cgen.dataclasses.replace(o, max_decls=14, depth=3)
        units = st.tuples(cgen.programs(o), st.sampled_from([None, None, None, "i386-linux"])).map(
            lambda x: {"kind": "proto", "src": x[0][1], "labels": sorted(x[0][0].labels), "target": x[1]})
        return st.one_of([units] * 12 + [bindings()] * 2 + [swaps()])

    def enumerate(self, tier):
        return [{"kind": "proto", "src": s, "labels": ["shape"], "target": t} for s in (
            "int f(int a[3], char b[], long c[][2]);", "typedef int A[3]; void f(A a, A *p);",
            "int f(); int f(int);", "int f(int g(char), int (*h)(short));", "void f(void); void g();",
            "struct s {int a; double d;}; struct s f(struct s, struct s *, const struct s);",
            "typedef void (*cb)(void *, int, ...); int f(cb, cb[2], cb *);",
            "enum e {A, B}; enum n {C = -1}; enum e f(enum n, enum e *);",
            "float f(float, double, char, signed char, unsigned char, _Bool);",
            "struct t; struct t *f(struct t *, struct t **); struct t {struct t *n;};",
        ) for t in (None, "i386-linux")]

    def run(self, case):
        if case["kind"] == "bind":
            return self.bind(case)
        if case["kind"] == "swap":
            return self.swap(case)
        t = case["target"]
        if t and "__int128" in case["src"]:
            t = None
        tu = layout.parse(case["src"], (["-target", t] if t else []) + ["-Wno-everything"])
        ns = env.load(env.generate(case["src"], target=t))
        w = layout.walk_unit(ns, tu, 4 if t else 8)
        labels = list(case["labels"]) + ["target:%s" % t]
        if not t:
            n = 0
            for name, v in list(ns.items()):
                if isinstance(v, type) and issubclass(v, ctypes._CFuncPtr) and not name.startswith("_") \
                        and hasattr(v, "_restype_") and not hasattr(v, "argtypes_") and name in ns["__all__"]:
                    if "restype" in vars(v):
                        continue
                    n += exercise(v, len(case["src"]))
            for c in layout.top_level(tu):
                if c.kind == layout.CursorKind.FUNCTION_DECL:
                    for a in ns[c.spelling].argtypes:
                        if isinstance(a, type) and issubclass(a, ctypes._CFuncPtr):
                            n += exercise(a, len(case["src"]))
            if n:
                labels.append("callback-called")
        return w.functions > 0 and bool(set(case["labels"]) - {"function"}), labels

    def bind(self, case):
        d = POOLED.get()
        paths = [os.path.join(d, POOL[k][0], POOL[k][1]) for k in case["libs"]]
        lines = ["int fn_%d(int);" % j for j in case["fns"]] + ["extern int var_%d;" % j for j in case["vars"]]
        if case["std"]:
            lines.append("int abs(int); double cos(double);")
        if case["order"]:
            lines.reverse()
        libs = list(paths)
        if case["std"]:
            libs += case["std"]
        ns = env.load(env.generate("\n".join(lines), libs=libs, doc=case["doc"]))
        labels = ["bind", "libs:%d" % len(paths)]
        nontrivial = False
        for j in case["fns"]:
            exp = [k for k in case["libs"] if j in POOL[k][2]]
            f = env.get(ns, "fn_%d" % j)
            if len(set(exp)) > 1 or not exp:
                nontrivial = True
            if exp:
                env.require(isinstance(f, ctypes._CFuncPtr), "fn_%d is exported by %s but became %r", j,
                            [paths[case["libs"].index(k)] for k in exp], f)
                got = f(7)
                env.require(got == value(exp[0], j) + 7, "fn_%d(7) is %r: not the function of %s", j, got,
                            paths[case["libs"].index(exp[0])])
                labels.append("bound")
            else:
                env.require(not isinstance(f, ctypes._CFuncPtr), "fn_%d is exported by no library but became %r", j, f)
                labels.append("unbound")
            env.require(f.restype is ctypes.c_int and list(f.argtypes) == [ctypes.c_int], "fn_%d has type %r %r", j,
                        f.restype, f.argtypes)
        for j in case["vars"]:
            exp = [k for k in case["libs"] if j in POOL[k][3]]
            v = env.get(ns, "var_%d" % j)
            if exp:
                env.require(isinstance(v, ctypes.c_int) and v.value == value(exp[0], j), "var_%d is %r, not the variable "
                            "of %s", j, v, paths[case["libs"].index(exp[0])])
                labels.append("variable-bound")
            else:
                env.require(not isinstance(v, ctypes.c_int), "var_%d is bound to %r", j, v)
        if case["std"]:
            for nm, lib, arg, want in (("abs", "c", -5, 5), ("cos", "m", 0.0, 1.0)):
                f = env.get(ns, nm)
                if lib in case["std"]:
                    env.require(isinstance(f, ctypes._CFuncPtr) and f(arg) == want, "%s of -l %s is %r", nm, lib, f)
                    labels.append("linker-name")
        return nontrivial or len(set(os.path.basename(p) for p in paths)) < len(set(paths)), labels

    def swap(self, case):
        d = POOLED.get()
        first, second = [os.path.join(d, POOL[k][0], POOL[k][1]) for k in (case["first"], case["second"])]
        src = "".join("/* the function %d */\nint fn_%d(int);\n" % (j, j) for j in case["fns"])
        with env.case_dir() as here:
            # no process loads two libraries of the same path
            link = os.path.join(here, "libswap%d_%d.so" % (os.getpid(), next(SWAPS)))
            os.symlink(first, link)
            text = env.generate(src, libs=[link], doc=case["doc"], comments=case["comments"], locations=case["locations"])
            os.remove(link)
            os.symlink(second, link)
            ns = env.load(text)
        lacking = 0
        for j in case["fns"]:
            name = "fn_%d" % j
            if j not in POOL[case["first"]][2]:
                f = env.get(ns, name)
                env.require(not isinstance(f, ctypes._CFuncPtr), "%s is exported by no library but became %r", name, f)
            elif j in POOL[case["second"]][2]:
                f = env.get(ns, name)
                got = f(7)
                env.require(got == value(case["second"], j) + 7 and f.restype is ctypes.c_int and list(f.argtypes) == [ctypes.c_int],
                            "%s(7) is %r, of type %r %r", name, got, f.restype, f.argtypes)
            else:
                lacking += 1
                env.require(name not in ns, "%s is not in the library that is loaded, but became %r", name, ns.get(name))
        return lacking > 0, ["swap", "lacking:%s" % bool(lacking)]


CHECK = C06()
