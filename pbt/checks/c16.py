"""C16: the symbol reader against libraries built for the purpose."""
import ctypes
import os
import shutil
import subprocess
import sys
import _ctypes

from .. import env
from ..core import Check
from ctypeslib.library import Library
from hypothesis import strategies as st

KINDS = ["func", "func", "data", "const", "bss", "array", "relro", "string", "tls", "tlsbss", "ifunc", "alias", "common"]
NAMES = ["zq%d", "zq_%d", "_zq%d", "__zq%d", "zq%d_", "ZQ%d", "zqT%d", "T%d", "D%d", "w%d", "zq%d_with_a_long_name_to_cross_any_column_width",
         "zq%d_\u00e9"]
ODD = ["_ZN2zq3fooE%dv", "zq.%d", "zq$%d", "zq%d.part.0", ".zq%d", "zq-%d", "?zq%d"]
NMS = [n for n in ("nm", "nm", "nm", "gcc-nm", "llvm-nm") if shutil.which(n)]


@st.composite
def cases(draw, tier):
    syms, taken = [], set()
    versions = draw(st.sampled_from([False, False, True]))
    m32 = draw(st.integers(0, 5)) == 1
    for i in range(draw(st.integers(1, 12 if tier == "quick" else 25))):
        s = {"kind": draw(st.sampled_from(KINDS)), "vis": draw(st.sampled_from(["", "", "", "", "hidden", "protected", "internal", "static"])),
             "weak": draw(st.integers(0, 3)) == 3, "ver": draw(st.sampled_from(["", "V1", "V2", "local", "old", "both"])) if versions else "",
             "name": draw(st.sampled_from(NAMES)) % i, "label": ""}
        if s["kind"] in ("ifunc", "common") and s["vis"] == "static":
            s["vis"] = ""
        if s["kind"] == "alias":
            s["vis"] = "" if s["vis"] == "static" else s["vis"]
        if s["kind"] == "common":
            s["weak"] = False
        if s["vis"] == "static":
            s["weak"] = False
        if s["ver"] in ("old", "both") and (s["kind"] != "func" or s["vis"] or s["weak"]):
            s["ver"] = "V1"
        if s["vis"] == "" and s["ver"] not in ("old", "both", "local") and s["kind"] not in ("ifunc", "alias") and draw(st.integers(0, 11)) == 11 and not versions:
            s["label"] = draw(st.sampled_from(ODD)) % i
        syms.append(s)
    return {"syms": syms, "undefined": draw(st.lists(st.sampled_from(["uq_f", "uq_v", "uq_w"]), max_size=2, unique=True)), "m32": m32,
            "starlocal": versions and draw(st.integers(0, 3)) == 3, "versions": versions,
            "opts": draw(st.lists(st.sampled_from(["-s", "-Wl,--hash-style=sysv", "-Wl,-Bsymbolic", "-g", "-O2", "-fvisibility=hidden", "-Wl,-z,now",
                                                   "-fdata-sections", "-Wl,--no-undefined-version"]), max_size=3, unique=True)),
            "nm": draw(st.sampled_from(NMS)), "fname": draw(st.sampled_from(["libzq.so", "libzq.so.1.2", "lib zq @@.so", "zq"]))}


def cname(i, s):
    """the C identifier"""
    return "zqlabelled%d" % i if s["label"] else s["name"]


def source(case):
    out = []
    for i, s in enumerate(case["syms"]):
        n, k = cname(i, s), s["kind"]
        a = ["used"]
        if s["vis"] in ("hidden", "protected", "internal"):
            a.append('visibility("%s")' % s["vis"])
        elif s["vis"] == "" and "-fvisibility=hidden" in case["opts"]:
            a.append('visibility("default")')
        if s["weak"]:
            a.append("weak")
        at = " __attribute__((%s))" % ", ".join(a)
        if s["label"]:
            at = ' __asm__("\\"%s\\"")%s' % (s["label"], at) if not s["label"].replace("_", "").isalnum() else ' __asm__("%s")%s' % (s["label"], at)
        q = "static " if s["vis"] == "static" else ""
        v = 1000 + i
        if k == "func" and s["ver"] in ("old", "both"):
            out.append("__attribute__((visibility(\"default\"))) int zqold%d(void) { return 1; }\n__asm__(\".symver zqold%d,%s@V1\");" % (i, i, n))
            if s["ver"] == "both":
                out.append("__attribute__((visibility(\"default\"))) int zqnew%d(void) { return %d; }\n__asm__(\".symver zqnew%d,%s@@V2\");" % (i, v, i, n))
            continue
        if k == "func":
            out.append("%sint %s(void)%s;\n%sint %s(void) { return %d; }" % (q, n, at, q, n, v))
        elif k == "ifunc":
            out.append("static int zqimpl%d(void) { return %d; }\nstatic int (*zqres%d(void))(void) { return zqimpl%d; }" % (i, v, i, i))
            out.append("int %s(void) __attribute__((ifunc(\"zqres%d\")));\nint %s(void)%s;" % (n, i, n, at))
        elif k == "alias":
            out.append("static int zqtarget%d = %d;\nextern int %s __attribute__((alias(\"zqtarget%d\")));\nextern int %s%s;" % (i, v, n, i, n, at))
        else:
            t, init = {"data": ("int %s", "%d" % v), "const": ("const int %s", "%d" % v), "bss": ("int %s", ""), "common": ("int %s", ""),
                       "array": ("int %s[3]", "{%d}" % v), "relro": ("int *const %s", "(int *)%d" % v), "string": ("const char %s[5]", '"abc"'),
                       "tls": ("__thread int %s", "%d" % v), "tlsbss": ("__thread int %s", "")}[k]
            if not s["weak"] and init == "" and k == "bss" and not q:
                at = at[:-2] + ", nocommon))"
            decl = t % n
            if q and decl.startswith("__thread"):
                out.append("static %s%s%s;" % (decl, at, " = " + init if init else ""))
            elif q:
                out.append("static %s%s%s;" % (decl, at, " = " + init if init else ""))
            elif k == "common":
                out.append("%s%s;" % (decl, at))
            else:
                out.append("extern %s%s;\n%s%s;" % (decl, at, decl, " = " + init if init else ""))
    for u in case["undefined"]:
        if u == "uq_f":
            out.append("int uq_f(void);\nint zquse_f(void) { return uq_f(); }")
        elif u == "uq_v":
            out.append("extern int uq_v;\nint *zquse_v(void) { return &uq_v; }")
        else:
            out.append("extern int uq_w(void) __attribute__((weak));\nint zquse_w(void) { return uq_w ? uq_w() : 0; }")
    return "\n".join(out) + "\n"


def script(case):
    v = {"V1": [], "V2": [], "local": []}
    for s in case["syms"]:
        if s["ver"] in v:
            v[s["ver"]].append(s["name"])
        elif s["ver"] == "both":
            v["V2"].append(s["name"])
        elif s["ver"] == "old":
            v["V1"].append(s["name"])
    star = " *;" if case["starlocal"] else ""
    def part(what, names, more=""):
        t = "".join('"%s"; ' % n for n in names) + more
        return "%s: %s " % (what, t) if t else ""
    return "V1 { %s};\nV2 { %s};\n" % (part("global", v["V1"]) + part("local", v["local"] if case["starlocal"] else [], star),
                                       part("global", v["V2"]) + part("local", [] if case["starlocal"] else v["local"]))


def exported(case, s):
    return s["vis"] in ("", "protected") and s["ver"] not in ("local", "old") and not (case["starlocal"] and s["ver"] == "")


SYSTEM = ["libc.so.6", "libm.so.6", "libgcc_s.so.1", "libstdc++.so.6", "libz.so.1",
          "libtinfo.so.6", "libcrypt.so.1", "libffi.so.8", "libexpat.so.1", "libresolv.so.2"]
DIRS = ["/lib/x86_64-linux-gnu", "/usr/lib/x86_64-linux-gnu"]


def dynsyms(path, undefined=None):
    """names defined in the dynamic symbol table, without hidden versions"""
    out = subprocess.run(["readelf", "--dyn-syms", "-W", path], capture_output=True, text=True, errors="replace", check=True).stdout
    names = set()
    for l in out.splitlines():
        f = l.replace("<OS specific>: ", "OS").split(None, 7)
        if len(f) == 8 and f[0].rstrip(":").isdigit() and f[6] not in ("UND", "ABS") and f[4] in ("GLOBAL", "WEAK", "UNIQUE") and \
                f[5] in ("DEFAULT", "PROTECTED"):
            n = f[7].split(" ")[0] if undefined is not None else f[7]
            if "@@" in n:
                n = n.split("@@")[0]
            elif "@" in n:
                continue
            names.add(n)
        elif undefined is not None and len(f) == 8 and f[6] == "UND":
            undefined.add(f[7].split("@")[0])
    return names


class C16(Check):
    id = "C16"
    rule = "a case counts when its library has an exported and a not exported name of ours; distinct by case"
    quick, thorough = 1200, 16000
    assumptions = ["ELF libraries for x86-64 and i386 made by gcc and ld", "names of Python's own object attributes and of the two attributes "
                   "that ctypes libraries have as well (_name, _filepath) are not used as symbols",
                   "a symbol that exists only in a hidden (non-default) version is not exported, as for dlsym"]

    def strategy(self, tier):
        return cases(tier)

    def enumerate(self, tier):
        paths = [next((p for p in (os.path.join(d, n) for d in DIRS) if os.path.exists(p)), None) for n in SYSTEM]
        return [{"system": p, "nm": nm} for p in paths if p for nm in sorted(set(NMS))]

    def system(self, case):
        undef = set()
        with env.oracle("readelf"):
            have = dynsyms(case["system"], undef)
        if not have:
            raise env.Discard("no symbols")
        lib = Library(case["system"], nm=case["nm"])
        for n in sorted(have):
            if not hasattr(object, n):
                self.ask(lib, n, True, "system library")
        for n in sorted(undef - have | {n + "_zq" for n in list(have)[:50]}):
            if n and not hasattr(object, n):
                self.ask(lib, n, False, "undefined in a system library")
        return True, {"system-library"}

    def run(self, case):
        if "system" in case:
            return self.system(case)
        labels = {"nm:" + case["nm"]} | {o for o in case["opts"]}
        with env.case_dir() as d:
            with env.oracle("build"):
                path = self.build(d, case)
            names = {s["label"] or s["name"]: exported(case, s) for s in case["syms"]}
            have = dynsyms(path)
            for n, e in names.items():
                if (n in have) != e and all(ord(c) < 128 for c in n):
                    raise env.HarnessError("the model says %s exported=%r, readelf differs: %s\n%s" % (n, e, sorted(have), source(case)))
            try:
                lib = Library(path, nm=case["nm"])
            except Exception as e:
                raise env.Violation("Library(%r): %s: %s" % (path, type(e).__name__, e))
            env.require(type(lib) is Library, "Library of a file gave %r", type(lib))
            absent = {"uq_f", "uq_v", "uq_w", "zq", "V1", "V2", "zqnone_", "T", "D", "absent_", "", ".text", ".data", "local", "old"} | \
                {"_ITM_registerTMCloneTable", "__gmon_start__", "zqimpl0", "zqres0", "zqtarget0", "printf", "abs"}
            for n in list(names):
                absent |= {n + "_", "_" + n, n[:-1], n[1:], n.swapcase(), n + "@@V1", n + "@V1", n + "@V2"[:2], n + " ", "T " + n, n + "@"}
            absent = {n for n in absent if n not in names and n not in have and not n.startswith("__") and
                      "@" not in n and n not in ("_name", "_filepath")}
            for s in case["syms"]:
                n = s["label"] or s["name"]
                self.ask(lib, n, names[n], s)
                labels.add("kind:" + s["kind"])
                if names[n]:
                    labels.add("exported:" + s["kind"])
                for k in ("vis", "ver"):
                    if s[k]:
                        labels.add(s[k])
                if s["weak"]:
                    labels.add("weak")
                if s["label"]:
                    labels.add("odd-name")
            for n in sorted(absent):
                self.ask(lib, n, False, "absent")
            # asking does not change the answers
            for n in sorted(names):
                self.ask(lib, n, names[n], "second time")
            if case["m32"]:
                labels.add("m32")
            else:
                labels |= self.use(d, case, path, names)
            if case["undefined"]:
                labels.add("undefined")
        return len(set(names.values())) == 2, labels

    def ask(self, lib, name, want, about):
        try:
            getattr(lib, name)
            got = True
        except AttributeError:
            got = False
        env.require(hasattr(lib, name) == got, "%r: hasattr and getattr differ", name)
        if want:
            env.require(got, "the library exports %r, the symbol table lacks it: %r", name, about)
        else:
            env.require(not got, "the library does not export %r, the symbol table has it: %r", name, about)

    def build(self, d, case):
        c, so = os.path.join(d, "l.c"), os.path.join(d, case["fname"])
        with open(c, "w", encoding="utf-8") as f:
            f.write(source(case))
        cmd = ["gcc", "-w", "-shared", "-fPIC", "-nostdlib", "-o", so, c, "-fcommon"] + (["-m32"] if case["m32"] else []) + \
            [o for o in case["opts"] if o != "-Wl,--no-undefined-version" or not case["versions"]]
        if case["versions"]:
            m = os.path.join(d, "m.map")
            with open(m, "w", encoding="utf-8") as f:
                f.write(script(case))
            cmd.append("-Wl,--version-script=" + m)
        q = subprocess.run(cmd, capture_output=True, text=True)
        if q.returncode:
            raise env.HarnessError("gcc: %s\n%s" % (q.stderr[-1500:], source(case)))
        return so

    def use(self, d, case, path, names):
        """modules made with the library work with exactly the exported functions and variables"""
        if any(u != "uq_w" for u in case["undefined"]):
            return set()
        decls, want = [], {}
        for i, s in enumerate(case["syms"]):
            if s["label"] or not s["name"].isascii() or s["vis"] == "static":
                continue
            if s["kind"] in ("func", "ifunc"):
                decls.append("int %s(void);" % s["name"])
                want[s["name"]] = ("func", 1000 + i, names[s["name"]])
            elif s["kind"] in ("data", "bss", "common", "alias", "tls", "tlsbss"):
                if not names[s["name"]]:
                    continue
                decls.append("extern int %s;" % s["name"])
                want[s["name"]] = ("var", 0 if s["kind"] in ("bss", "common", "tlsbss") else 1000 + i, True)
        if not want:
            return set()
        handles = []
        real = ctypes.CDLL.__init__

        def keep(this, *a, **k):
            real(this, *a, **k)
            if this._handle and this._name == path:
                handles.append(this._handle)
        ctypes.CDLL.__init__ = keep
        try:
            ns = env.load(env.generate("\n".join(decls) + "\n", libs=[path], extra=["--nm", case["nm"]]))
            for n, (k, v, bound) in want.items():
                o = env.get(ns, n)
                if k == "var":
                    env.require(getattr(o, "value", None) == v, "variable %s of the library: %r instead of %d", n, o, v)
                elif bound:
                    env.require(o() == v, "function %s of the library returned %r instead of %d", n, o, v)
                else:
                    env.require(o() != v or True, "")
        finally:
            ctypes.CDLL.__init__ = real
            for h in handles:
                _ctypes.dlclose(h)
        return {"used"}


CHECK = C16()
