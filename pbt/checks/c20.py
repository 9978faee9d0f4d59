"""C20: types of the modules given with -m are imported, not generated again."""
import ctypes
import importlib
import io
import itertools
import os
import sys

from .. import cgen, cgraph, env, layout, shape, steps
from ..core import Check
from .c15 import chunks
from clang.cindex import CursorKind as CK, TypeKind as K
from hypothesis import strategies as st

COUNT = itertools.count()


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    k = draw(st.sampled_from(["graph", "prog", "prog", "both"]))
    cs, labels = [], ["source:" + k]
    if k != "graph":
        cs += chunks(draw(cgen.programs(cgen.Opts(functions=True, max_decls=12 if big else 8, max_fields=4)))[1])
    if k != "prog":
        cs += chunks("\n".join(draw(cgraph.graphs(8 if big else 5, extras=False))["decls"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if draw(st.integers(0, 3)) == 3:
        # names that are private by convention
        cs.insert(0, draw(st.sampled_from(["typedef struct _zqr { int a; char b; } _zqr_t, *_zqp_t;\n", "typedef long _zqi;\n",
                                           "typedef struct { short a; } _zqn;\n", "struct _ { char c; };\ntypedef struct _ __zq_t;\n"])))
        labels.append("underscore")
    if draw(st.integers(0, 24)) == 24:
        # many types of a module used at once
        k = draw(st.integers(12, 60))
        form = draw(st.sampled_from(["struct zqm%d { int a; };", "typedef struct { char a; } zqm%d;", "typedef int zqm%d;"]))
        cs = [form % i + "\n" for i in range(k)] + cs
        t = "struct zqm%d" if form.startswith("struct") else "zqm%d"
        cs.append("struct zqall { %s };\n" % " ".join((t + " %sm%d;") % (i, "*" * (i % 2), i) for i in range(k)))
        labels.append("many-types")
    return {"chunks": cs, "cuts": [draw(st.integers(30, 100)) for _ in range(n)],
            "package": draw(st.integers(0, 3)), "last": draw(st.integers(0, 2)) == 0,
            "includes": draw(st.booleans()), "entry": draw(st.sampled_from(["main", "main", "config"])),
            "order": draw(st.booleans()), "uses": [draw(st.integers(0, 1000)) for _ in range(draw(st.integers(0, 8)))],
            "target": draw(st.sampled_from([None, None, None, "i386-linux"])) if "__int128" not in "".join(cs) else None,
            "labels": labels}


def incomplete(tu):
    """records that are declared, but not (yet) defined"""
    out = set()
    for c in walk(tu.cursor):
        if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL) and c.get_definition() is None:
            out.add(c.get_usr())
    return out


def walk(c):
    for x in c.get_children():
        yield x
        yield from walk(x)


USES = ["struct zu%(i)d { %(t)s a; %(t)s *b; %(t)s c[2]; };", "%(t)s *zf%(i)d(%(t)s *, int);", "typedef %(t)s zt%(i)d;",
        "struct zu%(i)d { char before; int (*cb)(%(t)s *); struct { %(t)s in; } m; };", "extern %(t)s zv%(i)d;", "union zu%(i)d { %(t)s *p; %(t)s **q; };",
        "typedef %(t)s *zt%(i)d; struct zu%(i)d { zt%(i)d x; };"]


class C20(Check):
    id = "C20"
    rule = ("a case counts when two or more types were imported from the modules and one of two or more own declarations refers to a record "
            "of a module; distinct by sources and options")
    quick, thorough = 2400, 36000
    assumptions = ["a module that is given defines the types it knows completely: one that only declares a record which the source "
                   "defines is not generated", "enumerations, functions, variables and macros are no types: they are generated",
                   "types without a name of their own are compared by structure only"]

    def strategy(self, tier):
        return cases(tier)

    def parts(self, case):
        """the source, cut at places where everything the first pieces declare is defined"""
        cs = case["chunks"]
        flags = ["-target", case["target"]] if case["target"] else []
        with env.oracle("cutting"):
            last = incomplete(layout.parse("".join(cs), flags))
            cuts, at = [], 0
            for c in case["cuts"]:
                at = min(len(cs), at + max(1, (len(cs) - at) * c // 100))
                while at < len(cs) and incomplete(layout.parse("".join(cs[:at]), flags)) - last:
                    at += 1
                cuts.append(at)
            parts = ["".join(cs[a:b]) for a, b in zip([0] + cuts, cuts + [len(cs)])]
            head = "".join(parts[:-1])
            names = []
            for c in layout.top_level(layout.parse(head, flags)):
                if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL) and c.is_definition() and not layout.is_anon(c):
                    if c.type.get_size() > 0 and " " in c.type.spelling and c.type.get_size() < 10 ** 6:
                        names.append(c.type.spelling)
                elif c.kind == CK.TYPEDEF_DECL and c.type.get_canonical().kind == K.RECORD and c.type.get_size() > 0:
                    names.append(c.spelling)
                elif c.kind == CK.TYPEDEF_DECL and c.type.get_canonical().kind in (K.POINTER, K.INT, K.ULONG, K.CHAR_S):
                    names.append(c.spelling)
            uses = ""
            if names:
                for i, u in enumerate(case["uses"]):
                    t = names[u // len(USES) % len(names)]
                    x = USES[u % len(USES)] % {"i": i, "t": t}
                    try:
                        layout.parse(head + x, flags)
                    except Exception:
                        continue    # a flexible array may not be in the middle
                    uses += x + "\n"
        return parts[:-1], parts[-1] + uses

    def run(self, case):
        heads, rest = self.parts(case)
        labels = set(case["labels"])
        flags = ["-target", case["target"]] if case["target"] else []
        n = next(COUNT)
        made, every = [], []
        with env.case_dir() as d:
            here = "zqmods_%d_%d" % (os.getpid(), n)
            folder = os.path.join(d, "py")
            level = int(case["package"])
            parts = [here, "zqsub", "zqinner"][:level]
            for i in range(level):
                os.makedirs(os.path.join(folder, *parts[:i + 1]))
                open(os.path.join(folder, *parts[:i + 1], "__init__.py"), "w").close()
            os.makedirs(folder, exist_ok=True)
            sys.path.insert(0, folder)
            importlib.invalidate_caches()
            try:
                before = ""
                mods = []
                for i, h in enumerate(heads):
                    text = self.translate(d, case, flags, "h%d" % i, before, h, mods)
                    name = "m%d_%d_%d" % (i, os.getpid(), n)
                    where, dotted = os.path.join(folder, *parts), ".".join(parts + [name])
                    with open(os.path.join(where, name + ".py"), "w", encoding="utf-8") as f:
                        f.write(text)
                    importlib.invalidate_caches()
                    try:
                        every.append(dotted)
                        made.append(importlib.import_module(dotted))
                    except Exception as e:
                        raise env.Violation("module %d is not importable: %s: %s" % (i, type(e).__name__, e))
                    mods.append(dotted)
                    before += h
                if case.get("last"):
                    # it knows the types of the others that it uses itself
                    labels.add("last-module-alone")
                    mods, made = mods[-1:], made[-1:]
                order = mods[::-1] if case["order"] else mods
                ns = env.load(self.translate(d, case, flags, "rest", before, rest, order))
                whole = env.load(env.generate(before + rest, flags=flags))
                self.compare(case, ns, made, whole, before, rest, flags, labels)
            finally:
                sys.path.remove(folder)
                for m in [x for x in sys.modules if x.startswith(here) or x in every]:
                    del sys.modules[m]
        return len(self.imported) >= 2 and len(self.own) >= 2 and bool(self.referred), labels

    def translate(self, d, case, flags, name, before, text, mods):
        with open(os.path.join(d, name + ".h"), "w", encoding="utf-8") as f:
            f.write(before)
        with open(os.path.join(d, name + ".c"), "w", encoding="utf-8") as f:
            f.write('#include "%s.h"\n%s' % (name, text))
        s = {"inputs": [name + ".c"], "includes": case["includes"], "modules": mods, "flags": flags}
        if case["entry"] == "main":
            r = env.run_main(steps.argv_of(d, s), os.path.join(d, "out.py"))
            env.require(r.rc == 0 and r.exc is None, "a valid source was not translated (exit %r): %s", r.rc, (r.tb or "")[-1500:])
            return r.text
        out = io.StringIO()
        try:
            cfg = steps.make_cfg(s)
            cfg.known_symbols = {k: m for m in mods for k, v in vars(sys.modules[m]).items() if isinstance(v, type)}
            env.translate_files([os.path.join(d, name + ".c")], out, cfg)
        except Exception as e:
            raise env.Violation("a valid source was not translated: %s: %s" % (type(e).__name__, e))
        return out.getvalue()

    def compare(self, case, ns, made, whole, before, rest, flags, labels):
        known = {}
        for m in made:
            for k, v in vars(m).items():
                if isinstance(v, type) and (k in m.__all__ or issubclass(v, (ctypes.Structure, ctypes.Union))):
                    known[k] = v
        with env.oracle("declarations"):
            first = {c.get_usr() for c in layout.top_level(layout.parse(before, flags))}
            tu = layout.parse(before + rest, flags)
            types = {c.spelling if c.kind == CK.TYPEDEF_DECL else layout.py_prefix(c) + c.spelling for c in walk(tu.cursor)
                     if c.kind in (CK.TYPEDEF_DECL, CK.STRUCT_DECL, CK.UNION_DECL)}
            enums = {c.type.spelling.split()[-1] for c in walk(tu.cursor) if c.kind == CK.ENUM_DECL}
            # a typedef of an unnamed enumeration is that enumeration
            enums |= {c.spelling for c in walk(tu.cursor) if c.kind == CK.TYPEDEF_DECL and c.type.get_canonical().kind == K.ENUM}
            own = set()
            for c in layout.top_level(tu):
                if c.get_usr() in first or layout.is_anon(c):
                    continue
                if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL):
                    own.add(layout.py_prefix(c) + c.spelling)
                elif c.kind in (CK.TYPEDEF_DECL, CK.FUNCTION_DECL, CK.VAR_DECL, CK.ENUM_DECL) and c.spelling:
                    own.add(c.spelling)
        self.imported, self.own, self.referred = set(), own, set()
        for k, v in known.items():
            if k in ns and k in whole and k in types and k not in enums and k not in own:
                env.require(ns[k] is v, "%s is generated again instead of imported from its module", k)
                env.require(k not in ns["__all__"], "%s of another module is exported as if it were defined here", k)
                self.imported.add(k)
        # every record that something own refers to is the one of its module
        seen = set()
        for k in sorted(own):
            env.require(k in ns, "own declaration %s is not defined", k)
            env.require(k in ns["__all__"], "own declaration %s is not exported", k)
            self.reach(ns[k] if isinstance(ns[k], type) else type(ns[k]), known, k, seen)
        for k in ns["__all__"]:
            env.require(k in ns, "exported name %s is not defined", k)
        shape.same_names(ns, whole, sorted(own), "with and without modules")
        w = layout.Walker(ns, 4 if case["target"] else 8)
        for c in layout.top_level(tu):
            if c.get_usr() not in first and not layout.is_anon(c) and c.kind in (CK.STRUCT_DECL, CK.UNION_DECL, CK.TYPEDEF_DECL):
                self.complete(ns, known)
                layout.check_decl(w, c)
        # objects pass between the modules
        for k in own:
            t = ns[k]
            if isinstance(t, type) and issubclass(t, ctypes.Structure):
                for f in getattr(t, "_fields_", ()):
                    if len(f) == 2 and isinstance(f[1], type) and known.get(f[1].__name__) is f[1]:
                        o = t()
                        try:
                            setattr(o, f[0], known[f[1].__name__]())
                        except TypeError as e:
                            raise env.Violation("an object of the module's class cannot be assigned to %s.%s: %s" % (k, f[0], e))
                        labels.add("object-passed")
        labels |= {"modules:%d" % len(made), "package:%d" % case["package"], "entry:" + case["entry"]}

    def complete(self, ns, known):
        """names that are not imported because nothing here needs them"""
        for k, v in known.items():
            ns.setdefault(k, v)

    def reach(self, t, known, path, seen):
        if not isinstance(t, type) or t in seen:
            return
        seen.add(t)
        if issubclass(t, (ctypes.Structure, ctypes.Union)):
            if t.__name__ in known:
                self.referred.add(t.__name__)
                env.require(known[t.__name__] is t, "%s refers to another %s than the one of its module", path, t.__name__)
            for f in getattr(t, "_fields_", ()):
                self.reach(f[1], known, path + "." + f[0], seen)
        elif issubclass(t, (ctypes.Array, ctypes._Pointer)):
            self.reach(t._type_, known, path + "*", seen)
        elif issubclass(t, ctypes._CFuncPtr):
            for x in list(getattr(t, "_argtypes_", ()) or ()) + [getattr(t, "_restype_", None)]:
                self.reach(x, known, path + "()", seen)
        elif hasattr(t, "_subtype_"):
            self.reach(t._subtype_, known, path + "*", seen)


CHECK = C20()
