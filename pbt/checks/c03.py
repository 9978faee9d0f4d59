"""C03: generated classes and functions against compiled C."""
import ctypes
import os

from .. import cgen, env, layout, native, values
from ..core import Check
from clang.cindex import CursorKind as CK, TypeKind as K
from hypothesis import strategies as st

HEAD = "#include <string.h>\nunsigned char zlog[65536], zin[65536];\n"
SCALARS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
           "unsigned long long", "float", "double", "long double", "_Bool", "void *", "char *", "const void *", "int *", "double **"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    o = cgen.Opts(max_decls=9 if big else 6, max_fields=7 if big else 5, depth=2, empty=True)
    g, src = draw(cgen.programs(o))
    return {"src": src, "cc": draw(st.sampled_from(["gcc", "gcc", "clang"])),
            "ints": draw(st.lists(st.integers(0, 2 ** 40), min_size=8, max_size=40)),
            # each function: choices of result and parameters, callbacks
            "sigs": draw(st.lists(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=13 if big else 9), max_size=6 if big else 4)) +
            (draw(st.lists(st.lists(st.integers(0, 10 ** 6), min_size=12, max_size=30), max_size=1)) if draw(st.integers(0, 7)) == 0 else []),
            "cbs": draw(st.lists(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6), max_size=2)),
            "globs": draw(st.lists(st.integers(0, 10 ** 6), max_size=3)),
            "labels": sorted(g.labels)}


class Unit:
    """what the source offers: spellings of types and their clang types"""

    def __init__(self, tu):
        self.records, self.names = [], {}
        for c in layout.top_level(tu):
            if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL) and c.is_definition() and not layout.is_anon(c):
                if " " in c.type.spelling:  # else it has no tag
                    self.add(c.type.spelling, c.type, True)
            elif c.kind == CK.ENUM_DECL and c.is_definition() and not layout.is_anon(c):
                if " " in c.type.spelling:
                    self.add(c.type.spelling, c.type, False)
            elif c.kind == CK.TYPEDEF_DECL:
                t = c.type.get_canonical()
                if t.kind == K.RECORD and t.get_declaration().is_definition():
                    self.add(c.spelling, t, True)
                elif native.scalar(t):
                    self.add(c.spelling, t, False)

    def add(self, name, ct, rec):
        if name in self.names:
            return
        self.names[name] = ct
        if rec and ct.get_size() >= 0:
            self.records.append(name)


class C03(Check):
    id = "C03"
    rule = ("a case counts when values crossed between Python and compiled code through a record of two or more leaves or a function with "
            "two or more parameters; distinct by source, signatures and values")
    quick, thorough = 1400, 24000
    assumptions = ["by value only records that the host's ctypes can pass when padding is spelled out (known finding K17)",
                   "no parameter lists that libffi itself passes wrongly (see native.libffi_limit)",
                   "no bit fields (C04), no variadic calls, no __int128 parameters", "gcc and clang on x86-64"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        with env.oracle("libclang"):
            tu = layout.parse(case["src"])
            u = Unit(tu)
            # spellings of the scalars, with their clang types
            st_ = layout.parse("".join("typedef %s zt%d;\n" % (s, i) for i, s in enumerate(SCALARS)))
            self.sc = {s: c.type.get_canonical() for s, c in zip(SCALARS, layout.top_level(st_))}
        r = values.Rnd(case["ints"])
        self.anyrec = case.get("any_record_by_value", False)
        protos, code, plan = [], [], []
        self.records(u, r, protos, code, plan)
        for i, s in enumerate(case["sigs"]):
            self.function(u, values.Rnd(s), r, i, protos, code, plan)
        for i, s in enumerate(case["cbs"]):
            self.callback(u, values.Rnd(s), r, i, protos, code, plan)
        for i, s in enumerate(case["globs"]):
            self.variable(u, s, r, i, protos, code, plan)
        labels = set(case["labels"])
        with env.case_dir() as d:
            so = os.path.join(d, "libz.so")
            text = case["src"] + "\n".join(protos) + "\n"
            with env.oracle("compiling"):
                native.compile_lib(case["cc"], text + HEAD + "\n".join(code) + "\n", so)
            gen = env.generate(text, libs=[so])

            def go():
                z = ctypes.CDLL(so)
                self.zlog = (ctypes.c_ubyte * 65536).in_dll(z, "zlog")
                self.zin = (ctypes.c_ubyte * 65536).in_dll(z, "zin")
                ns = env.load(gen)
                done = set()
                for p in plan:
                    done |= p(ns, r)
                return sorted(done)
            labels |= set(native.in_child(go))
        return "crossed" in labels, labels

    # -- records by pointer ----------------------------------------------------
    def records(self, u, r, protos, code, plan):
        recs = list(u.records)
        while len(recs) > 5:
            recs.pop(r.below(len(recs)))
        for i, name in enumerate(recs):
            ls = []
            with env.oracle("leaves"):
                native.leaves(u.names[name], "(*p)", [], r, ls)
                native.place(ls)
            protos.append("unsigned long zsize_%d(void);\nvoid zrd_%d(const %s *p);\nvoid zwr_%d(%s *p);" % (i, i, name, i, name))
            code.append("unsigned long zsize_%d(void) { return sizeof(%s); }" % (i, name))
            code.append("void zrd_%d(const %s *p) {\n  %s\n}" % (i, name, native.c_read(ls, "zlog")))
            code.append("void zwr_%d(%s *p) {\n  %s\n}" % (i, name, native.c_write(ls, "zin")))
            plan.append(lambda ns, r, i=i, name=name, ls=ls: self.check_record(ns, r, i, name, ls, u))

    def pycls(self, ns, name, ct):
        """the class or type that the module has for a C type name"""
        if " " in name:
            kw, tag = name.split()
            return env.get(ns, (kw + "_" if kw != "enum" else "") + tag)
        return env.get(ns, name)

    def check_record(self, ns, r, i, name, ls, u):
        cls = self.pycls(ns, name, u.names[name])
        rd, wr = env.get(ns, "zrd_%d" % i), env.get(ns, "zwr_%d" % i)
        size = env.get(ns, "zsize_%d" % i)()
        env.require(ctypes.sizeof(cls) == size, "%s has %d bytes in C, %d in Python", name, size, ctypes.sizeof(cls))
        o = cls()
        want = [native.choose(l, r) for l in ls]
        for l, v in zip(ls, want):
            native.py_set(o, l, v)
        rd(ctypes.pointer(o))
        self.compare_c(ls, want, "%s: member %%s was written in Python" % name)
        # values of C, over an object with other contents
        fill = r.below(256)
        ctypes.memset(ctypes.addressof(o), fill, ctypes.sizeof(cls))
        want = [native.choose(l, r) for l in ls]
        self.put(ls, want)
        wr(ctypes.pointer(o))
        for l, v in zip(ls, want):
            got = native.py_get(o, l)
            env.require(native.py_same(got, l, v), "%s: member %s was written in C as %r, Python reads %r", name, l.c, v, got)
        # one member changes, the others stay
        if len(ls) > 1:
            k = r.below(len(ls))
            want[k] = native.choose(ls[k], r)
            native.py_set(o, ls[k], want[k])
            rd(ctypes.pointer(o))
            self.compare_c(ls, want, "%s: after writing %s, member %%s" % (name, ls[k].c))
            # in an array of records
            a = (cls * 3)()
            wr(ctypes.pointer(a[1]))
            self_in = bytes(self.zin[:ls[-1].at + ls[-1].n])
            rd(ctypes.pointer(a[1]))
            for l in ls:
                n = l.n
                env.require(l.kind == "C" or bytes(self.zlog[l.at:l.at + n]) == self_in[l.at:l.at + n], "%s: element of an array", name)
            env.require(not any(bytes(a[0])) and not any(bytes(a[2])), "%s: C writes beyond the record", name)
            return {"crossed", "record"}
        return {"record"}

    def put(self, ls, vs):
        for l, v in zip(ls, vs):
            b = native.encode(l, v)
            ctypes.memmove(ctypes.addressof(self.zin) + l.at, b, len(b))

    def compare_c(self, ls, vs, what):
        for l, v in zip(ls, vs):
            raw = bytes(self.zlog[l.at:l.at + l.n])
            env.require(native.same(l, raw, v), "%s as %r, C reads %s", what % l.c, v, native.show(l, raw))

    # -- functions ----------------------------------------------------------
    def type(self, u, k, scalars_only=False):
        """(C spelling, clang type or pointee spelling) for choice k"""
        names = [n for n, ct in u.names.items() if n not in u.records or not scalars_only and (self.anyrec or native.by_value(ct))]
        byval = [n for n in names if n in u.records]
        m, k = k % 8, k // 8
        if m < 3 or not u.names:
            s = SCALARS[k % len(SCALARS)]
            return s, self.sc[s]
        if m < 5 and byval:
            n = byval[k % len(byval)]
            return n, u.names[n]
        if m < 6 and u.records:
            n = u.records[k % len(u.records)]
            return n + " *", None
        if names:
            n = names[k % len(names)]
            return n, u.names[n]
        s = SCALARS[k % len(SCALARS)]
        return s, self.sc[s]

    def leaves_of(self, ct, c, r):
        ls = []
        with env.oracle("leaves"):
            if ct is None:
                ls.append(native.Leaf("p", c, [], 8))
            else:
                native.leaves(ct, c, [], r, ls)
        return ls

    def function(self, u, s, r, i, protos, code, plan):
        n = len(s.ints) - 1
        res, rt = ("void", None) if s.next() % 7 == 0 else self.type(u, s.below(10 ** 6) // 3)
        s.i = 1
        ps = [self.type(u, s.next()) for _ in range(n)]
        with env.oracle("registers"):
            ps = ps[:native.libffi_limit([t for _, t in ps], res != "void" and rt is not None and rt.get_size() > 16)]
        d = "%s zfn_%d(%s)" % (res, i, ", ".join("%s a%d" % (t, j) for j, (t, _) in enumerate(ps)) or "void")
        args = [self.leaves_of(ct, "a%d" % j, r) for j, (_, ct) in enumerate(ps)]
        at = 0
        for ls in args:
            at = native.place(ls, at)
        rl = [] if res == "void" else self.leaves_of(rt, "(*(%s *)zb)" % res, r)
        native.place(rl)
        body = "".join("  %s\n" % native.c_read(ls, "zlog") for ls in args)
        if res != "void":
            body += "  unsigned char zb[sizeof(%s)] __attribute__((aligned(16))) = {0};\n  %s\n  return *(%s *)zb;\n" % (
                res, native.c_write(rl, "zin"), res)
        code.append("%s {\n%s}" % (d, body))
        get = s.ints[0] % 4 == 3
        if get:
            # C hands out a pointer to it
            g = "%s (*zget_%d(void))(%s)" % (res, i, ", ".join(t for t, _ in ps) or "void")
            protos.append(g + ";")
            code.append("%s { return zfn_%d; }" % (g, i))
        else:
            protos.append(d + ";")
        plan.append(lambda ns, r: self.check_function(ns, r, i, d, ps, args, res, rt, rl, get))

    def argument(self, t, ct, ls, want, path):
        """a Python argument of the function's own argument type t that has these values"""
        if ct is not None and ct.get_canonical().kind == K.RECORD:
            o = t()
            for l, v in zip(ls, want):
                native.py_set(o, l, v)
            return o
        v, l = want[0], ls[0]
        if l.kind == "p":
            if isinstance(t, type) and issubclass(t, (ctypes._Pointer, ctypes._CFuncPtr)):
                return ctypes.cast(v, t)
            return v or None
        return native.plain(l, v)

    def check_function(self, ns, r, i, d, ps, args, res, rt, rl, get):
        f = env.get(ns, "zget_%d" % i)() if get else env.get(ns, "zfn_%d" % i)
        if get:
            env.require(isinstance(f, ctypes._CFuncPtr) and len(f.argtypes or ()) == len(ps), "%s through a pointer that C returns is %r, "
                        "arguments %r", d, f, getattr(f, "argtypes", None))
        for again in range(2):
            py, wants = [], []
            for (t, ct), ls, at in zip(ps, args, f.argtypes):
                want = [native.choose(l, r) for l in ls]
                wants.append(want)
                py.append(self.argument(at, ct, ls, want, d))
            rw = [native.choose(l, r) for l in rl]
            self.put(rl, rw)
            try:
                got = f(*py)
            except Exception as e:
                raise env.Violation("%s called with %r: %s: %s" % (d, py, type(e).__name__, e))
            for ls, want in zip(args, wants):
                self.compare_c(ls, want, d + ": %s was passed")
            if res == "void":
                env.require(got is None, "%s returned %r", d, got)
            for l, v in zip(rl, rw):
                x = native.py_get(got, l) if l.py else got
                env.require(native.py_same(x, l, v), "%s: C returned %s = %r, Python has %r", d, l.c, v, x)
        out = {"function", "function-from-c"} if get else {"function"}
        if len(ps) > 1:
            out.add("crossed")
        if any(ct is not None and ct.get_canonical().kind == K.RECORD for _, ct in ps + ([(res, rt)] if rl else [])):
            out.add("record-by-value")
        return out

    # -- callbacks ------------------------------------------------------------
    def callback(self, u, s, r, i, protos, code, plan):
        n = len(s.ints) - 1
        res, rt = ("void", None) if s.next() % 5 == 0 else self.type(u, s.below(10 ** 6) // 3, True)
        if rt is None and res != "void" or rt is not None and rt.get_canonical().kind == K.POINTER:
            res, rt = "void *", self.sc["void *"]
        s.i = 1
        ps = [self.type(u, s.next()) for _ in range(n)]
        proto = ", ".join(t for t, _ in ps) or "void"
        how = ["plain", "plain", "pointer", "array", "record"][s.ints[0] // 7 % 5]
        if how == "record":
            protos.append("struct zcbr_%d { char before; %s (*f)(%s); short after; };" % (i, res, proto))
        d = "void zcb_%d(%s)" % (i, {"plain": "%s (*f)(%s)" % (res, proto), "pointer": "%s (**f)(%s)" % (res, proto),
                                     "array": "%s (*f[2])(%s)" % (res, proto), "record": "struct zcbr_%d *f" % i}[how])
        args = [self.leaves_of(ct, "(*(%s *)b%d)" % (t, j), r) for j, (t, ct) in enumerate(ps)]
        at = 0
        for ls in args:
            at = native.place(ls, at)
        rl = [] if res == "void" else self.leaves_of(rt, "zr", r)
        native.place(rl)
        # no variables of the types themselves, which may be const
        body = "".join("  unsigned char b%d[sizeof(%s)] __attribute__((aligned(16))) = {0};\n  %s\n" % (j, t, native.c_write(ls, "zin"))
                       for j, ((t, _), ls) in enumerate(zip(ps, args)))
        call = {"plain": "f", "pointer": "(*f)", "array": "f[1]", "record": "f->f"}[how] + "(%s)" % ", ".join("(*(%s *)b%d)" % (t, j) for j, (t, _) in enumerate(ps))
        body += "  %s;\n" % call if res == "void" else "  %s zr = %s;\n  %s\n" % (res, call, native.c_read(rl, "zlog"))
        protos.append(d + ";")
        code.append("%s {\n%s}" % (d, body))
        plan.append(lambda ns, r: self.check_callback(ns, r, i, d, ps, args, res, rl, how))

    def check_callback(self, ns, r, i, d, ps, args, res, rl, how):
        f = env.get(ns, "zcb_%d" % i)
        wants = [[native.choose(l, r) for l in ls] for ls in args]
        for ls, want in zip(args, wants):
            self.put(ls, want)
        rw = [native.choose(l, r) for l in rl]
        seen = []

        def cb(*a):
            try:
                bad = None
                if len(a) != len(ps):
                    bad = "callback of %s received %d arguments" % (d, len(a))
                else:
                    for x, ls, want in zip(a, args, wants):
                        for l, v in zip(ls, want):
                            y = native.py_get(x, l) if l.py else x
                            if not native.py_same(y, l, v):
                                bad = "callback of %s: C passed %s = %r, Python has %r" % (d, l.c, v, y)
                seen.append(bad)
            except Exception as e:
                seen.append("callback of %s: %s: %s" % (d, type(e).__name__, e))
            if res != "void":
                return (rw[0] or None) if rl[0].kind == "p" else native.plain(rl[0], rw[0])
        t = f.argtypes[0]
        if how == "plain":
            keep = t(cb)
        elif how == "record":
            keep = env.get(ns, "struct_zcbr_%d" % i)
            env.require(t is ctypes.POINTER(keep), "the argument of %s is %r", d, t)
            fs = dict(x[:2] for x in keep._fields_)
            keep = keep(f=fs["f"](cb), before=1, after=2)
        else:
            env.require(issubclass(t, ctypes._Pointer) and issubclass(t._type_, ctypes._CFuncPtr), "the argument of %s is %r", d, t)
            keep = (t._type_ * 2)(t._type_(cb) if how == "pointer" else t._type_(), t._type_(cb))
        f(keep if how == "plain" else ctypes.cast(keep, t) if how != "record" else ctypes.byref(keep))
        env.require(len(seen) == 1, "callback of %s was called %d times", d, len(seen))
        env.require(seen[0] is None, "%s", seen[0])
        self.compare_c(rl, rw, "callback of " + d + ": %s was returned by Python")
        return {"callback", "callback:" + how} | ({"crossed"} if len(ps) > 1 else set())

    # -- variables -------------------------------------------------------------
    def variable(self, u, k, r, i, protos, code, plan):
        t, ct = self.type(u, k)
        if ct is None or k % 5 == 0 and u.records:
            t = u.records[k % len(u.records)]
            ct = u.names[t]
        if ct.is_const_qualified() or ct.get_canonical().is_const_qualified():
            return
        ls = self.leaves_of(ct, "zv_%d" % i, r)
        native.place(ls)
        protos.append("extern %s zv_%d;\nvoid zgr_%d(void);\nvoid zgw_%d(void);\n%s *zgp_%d(void);" % (t, i, i, i, t, i))
        code.append("%s zv_%d;\nvoid zgr_%d(void) {\n  %s\n}\nvoid zgw_%d(void) {\n  %s\n}\n%s *zgp_%d(void) { return &zv_%d; }" % (
            t, i, i, native.c_read(ls, "zlog"), i, native.c_write(ls, "zin"), t, i, i))
        plan.append(lambda ns, r: self.check_variable(ns, r, i, t, ls))

    def check_variable(self, ns, r, i, t, ls):
        v = env.get(ns, "zv_%d" % i)
        want = [native.choose(l, r) for l in ls]
        self.put(ls, want)
        ns["zgw_%d" % i]()
        for l, w in zip(ls, want):
            got = native.py_get(v, l) if l.py else (v.value if isinstance(v, ctypes._SimpleCData) else v)
            env.require(native.py_same(got, l, w), "%s zv_%d: C stored %s = %r, Python reads %r", t, i, l.c, w, got)
        want = [native.choose(l, r) for l in ls]
        for l, w in zip(ls, want):
            if l.py:
                native.py_set(v, l, w)
            elif l.kind == "p" and not isinstance(v, ctypes._SimpleCData):
                ctypes.c_void_p.from_buffer(v).value = w
            else:
                v.value = (w or None) if l.kind == "p" else native.plain(l, w)
        ns["zgr_%d" % i]()
        self.compare_c(ls, want, "%s: %%s was stored in Python" % t)
        # the same variable through a pointer that C returns
        p = ns["zgp_%d" % i]()
        if isinstance(p, ctypes._Pointer):
            for l, w in zip(ls, want):
                got = native.py_get(p.contents, l) if l.py else p[0]
                if not l.py and isinstance(got, ctypes._SimpleCData):
                    got = got.value
                env.require(native.py_same(got, l, w), "%s *: %s is %r, Python reads %r through the pointer", t, l.c, w, got)
            p[0] = p[0]
        return {"variable"} | ({"crossed"} if len(ls) > 1 else set())


CHECK = C03()
