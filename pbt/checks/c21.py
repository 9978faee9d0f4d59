"""C21: which clang library is used, and that any usable one will do."""
import functools
import glob
import json
import os
import subprocess
import sys

from .. import cgen, cvar, env, shape
from ..core import Check
from hypothesis import strategies as st

LIBDIRS = ("/usr/lib/x86_64-linux-gnu", "/usr/lib64", "/usr/lib")


def installed():
    """{major: path}: the clang libraries of this system"""
    out = {}
    for d in LIBDIRS:
        for f in sorted(glob.glob(d + "/libclang-[0-9][0-9].so.[0-9]*")):
            if not os.path.islink(f):
                out.setdefault(int(os.path.basename(f)[9:11]), f)
    return out


LIBS = installed()
OTHER = [f for f in ("/usr/lib/x86_64-linux-gnu/libm.so.6", "/usr/lib/x86_64-linux-gnu/libc.so.6", "/usr/lib/x86_64-linux-gnu/libz.so.1",
                     "/usr/lib/x86_64-linux-gnu/libdl.so.2") if os.path.exists(f)]
NAMES = ["lib", "libclang.so", "libclang-99.so.1", "a b", "\u00e9t\u00e9", "x.bin", "clang", "lib;x", "-l", "50%", "libLLVM.so"]

CHILD = r"""
import json, os, sys, warnings
spec = json.loads(sys.argv[1])
sys.path.insert(0, spec["repo"])
sys.dont_write_bytecode = True
caught = []
warnings.simplefilter("always")
warnings.showwarning = lambda m, c, f, l, *a: caught.append([c.__name__, str(m)])
for step, arg in spec["before"]:
    from clang import cindex
    if step == "file":
        cindex.Config.set_library_file(arg)
    elif step == "path":
        cindex.Config.set_library_path(arg)
    elif step == "use":
        cindex.Index.create()
os.chdir(spec["cwd"])
out = {}
try:
    import ctypeslib
    out["imported"] = True
    from clang import cindex
    out["version"], out["bindings"] = ctypeslib.clang_version(), ctypeslib.clang_py_version()
    import io, contextlib
    from ctypeslib import clang2py
    if spec["source"] is not None:
        f = io.StringIO()
        ctypeslib.translate(spec["source"], outfile=f)
        out["text"] = f.getvalue()
    f = io.StringIO()
    try:
        with contextlib.redirect_stdout(f):
            clang2py.main(["--version"])
    except SystemExit as e:
        out["exit"] = e.code
    out["printed"] = f.getvalue()
    out["used"] = os.path.realpath(cindex.conf.lib._name) if os.sep in cindex.conf.lib._name else cindex.conf.lib._name
except Exception as e:
    import traceback
    out["error"] = traceback.format_exc()[-1500:]
with open("/proc/self/maps") as f:
    out["maps"] = sorted({l.split(None, 5)[5].strip() for l in f if len(l.split(None, 5)) > 5})
out["warnings"] = caught
print("\n" + json.dumps(out))
"""


@functools.lru_cache(None)
def version_of(path):
    """what the library itself says"""
    code = ("import ctypes, re, sys\nclass S(ctypes.Structure):\n _fields_ = [('d', ctypes.c_void_p), ('f', ctypes.c_uint)]\n"
            "l = ctypes.CDLL(sys.argv[1])\nl.clang_getClangVersion.restype = S\nl.clang_getCString.restype = ctypes.c_char_p\n"
            "l.clang_getCString.argtypes = [S]\nprint(re.search(r'version (\\d+(\\.\\d+)*)', "
            "l.clang_getCString(l.clang_getClangVersion()).decode()).group(1))")
    with env.oracle("clang version"):
        return subprocess.run([sys.executable, "-c", code, path], stdout=subprocess.PIPE, check=True, timeout=100).stdout.decode().strip()


PLACES = ["unset", "unset", "absent", "empty", "file", "file", "link", "link", "dir", "dir", "empty-dir", "text", "zero", "cut", "other",
          "other", "dir-text", "dir-other", "dir-cut"]
USABLE = {"file", "link", "dir"}


@st.composite
def cases(draw, tier):
    major = draw(st.sampled_from(sorted(LIBS)))
    place = draw(st.sampled_from(PLACES))
    c = {"place": place, "major": major, "name": draw(st.sampled_from(NAMES)), "relative": draw(st.booleans()),
         "other": draw(st.sampled_from(OTHER)), "pre": "none", "pmajor": draw(st.sampled_from(sorted(LIBS))), "prelude": []}
    pre = draw(st.sampled_from(["none"] * 5 + ["import", "file", "path", "file-use", "path-use", "bad-file", "bad-path"]))
    c["pre"] = pre
    src = None
    k = draw(st.integers(0, 3))
    if k == 0:
        src = draw(cgen.programs(cgen.Opts(functions=True, max_decls=4, max_fields=4)))[1]
    elif k == 1:
        src = draw(cvar.units(3))["src"]
    elif k == 2:
        src = "struct s { int a; char b[3]; struct s *n; }; enum e { A, B = 7 }; int f(struct s *, enum e); char *t = \"x\";\n"
    c["source"] = src
    return c


class C21(Check):
    id = "C21"
    rule = ("a case counts when CLANG_LIBRARY_PATH is set or the program has configured or used clang before; distinct by place, "
            "library, earlier use and source")
    quick, thorough = 480, 9000
    assumptions = ["the libraries of this system (libclang %s) stand for all" % ", ".join(map(str, sorted(LIBS)))]

    def strategy(self, tier):
        return cases(tier)

    def enumerate(self, tier):
        base = {"name": "a b", "relative": False, "other": OTHER[0], "source": "struct s { int a; };\n", "prelude": []}
        return [dict(base, place=p, pre=q, major=m, pmajor=n) for p in sorted(set(PLACES)) for q in ("none", "file-use")
                for m in sorted(LIBS) for n in sorted(LIBS) if q != "none" or n == m]

    def run(self, case):
        with env.case_dir() as d:
            lib = LIBS[case["major"]]
            path = os.path.join(d, case["name"])
            place = case["place"]
            if place == "unset":
                path = None
            elif place == "empty":
                path = ""
            elif place == "file":
                path = lib
            elif place == "link":
                os.symlink(lib, path)
            elif place == "other":
                path = case["other"]
            elif place in ("text", "zero", "cut"):
                self.bad(path, place, lib)
            elif place != "absent":
                os.mkdir(path)
                f = os.path.join(path, "libclang.so")
                if place == "dir":
                    os.symlink(lib, f)
                elif place == "dir-other":
                    os.symlink(case["other"], f)
                elif place != "empty-dir":
                    self.bad(f, place[4:], lib)
            if path and case["relative"] and place != "other":
                path = os.path.relpath(path, d)
                if os.sep not in path and place in ("link", "text", "zero", "cut"):
                    path = "./" + path       # the system looks for a bare name elsewhere
            before, plib = self.before(case, d)
            e = {k: v for k, v in os.environ.items() if k not in ("CLANG_LIBRARY_PATH", "PYTHONWARNINGS")}
            if path is not None:
                e["CLANG_LIBRARY_PATH"] = path
            spec = {"repo": env.REPO, "before": before, "cwd": d, "source": case["source"]}
            p = subprocess.run([sys.executable, "-c", CHILD, json.dumps(spec)], env=e, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=120)
            env.require(p.returncode == 0, "the process ends with %d: %s", p.returncode, p.stderr.decode(errors="replace")[-800:])
            with env.oracle("answer of the process"):
                out = json.loads(p.stdout.decode().split("\n")[-2])
            what = "CLANG_LIBRARY_PATH=%r, before the import: %s" % (path, case["pre"])
            env.require(out.get("imported"), "%s: ctypeslib can not be imported: %s", what, out.get("error"))
            env.require("error" not in out, "%s: %s", what, out.get("error"))
            used = case["pre"].endswith("-use")
            if used:
                want = plib
            elif place in USABLE:
                want = lib
            elif plib:
                want = plib
            else:
                want = LIBS.get(int(out["bindings"].split(".")[0]))
            if want:
                env.require(any(os.path.samefile(want, m) for m in out["maps"] if os.path.exists(m)),
                            "%s: %s is not used but %s", what, want, [m for m in out["maps"] if "clang" in m])
                env.require(out["version"] == version_of(want), "%s: clang_version() is %s, %s is of version %s", what, out["version"],
                            want, version_of(want))
            mine = [m for c, m in out["warnings"] if c == "RuntimeWarning"]
            differ = out["version"].split(".")[0] != out["bindings"].split(".")[0]
            env.require(differ == any(out["version"] in m and out["bindings"] in m for m in mine),
                        "%s: library %s, bindings %s, but warnings %s", what, out["version"], out["bindings"], mine)
            if not used:
                ignored = place not in USABLE and place != "unset"
                rest = [m for m in mine if not (out["version"] in m and out["bindings"] in m)]
                if ignored:
                    env.require(rest, "%s: the variable is ignored without a warning", what)
                elif not case["pre"].startswith("bad"):
                    env.require(not rest, "%s: warnings %s", what, rest)
            env.require(out.get("exit") == 0 and out["version"] in out["printed"] and out["bindings"] in out["printed"],
                        "%s: --version prints %r", what, out["printed"])
            if case["source"] is not None:
                ref = self.reference(case["source"])
                if ref != out["text"]:
                    shape.same_modules(env.load(ref), env.load(out["text"]), "library %s" % out["version"])
        labels = {"place:" + place, "before:" + case["pre"], "library:" + out["version"], "source:%s" % (case["source"] is not None)}
        return place != "unset" or case["pre"] != "none", labels

    def reference(self, src):
        import io
        f = io.StringIO()
        env.translate(src, f)
        return f.getvalue()

    def bad(self, path, how, lib):
        with open(path, "wb") as f:
            if how == "text":
                f.write(b"this is not a library\n")
            elif how == "cut":
                with open(lib, "rb") as g:
                    f.write(g.read(50))

    def before(self, case, d):
        """steps of the program before the import, and the library they choose"""
        pre = case["pre"]
        lib = LIBS[case["pmajor"]]
        pdir = os.path.join(d, "pre")
        steps, chosen = [], None
        if pre == "import":
            steps = [["import", None]]
        elif pre.startswith("file"):
            steps, chosen = [["file", lib]], lib
        elif pre.startswith("path"):
            os.mkdir(pdir)
            os.symlink(lib, os.path.join(pdir, "libclang.so"))
            steps, chosen = [["path", pdir]], lib
        elif pre == "bad-file":
            steps = [["file", os.path.join(d, "absent.so")]]
        elif pre == "bad-path":
            steps = [["path", os.path.join(d, "absent")]]
        if pre.endswith("-use"):
            steps.append(["use", None])
        return steps, chosen


CHECK = C21()
