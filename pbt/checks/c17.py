"""C17: construction, dictionaries, callback binding and string casts of generated modules."""
import ctypes
import functools

from .. import cgen, env, layout, values
from ..core import Check
from clang.cindex import CursorKind as CK
from hypothesis import strategies as st

FuncPtr = ctypes._CFuncPtr
CB = ["int (*%s)(int, char)", "void (*%s)(void)", "double (*%s)(double, float)", "char (*%s)(const char *)", "void *(*%s)(void *)",
      "unsigned long (*%s)(unsigned long, long)", "_Bool (*%s)(_Bool)", "struct zs *(*%s)(struct zs *)", "struct zs (*%s)(int)",
      "int (*%s)(struct zs *, int (*)(int))", "char *(*%s)(int)", "zcb_t %s", "zfn_t *%s", "enum ze (*%s)(enum ze)", "int (*%s)()"]
PRE = "struct zs { short a; long b; };\nenum ze { ZA, ZB };\ntypedef int (*zcb_t)(long);\ntypedef void zfn_t(int);\nchar *zchars;\n"
FIELDS = ["int %s", "char %s", "double %s", "struct zs %s", "struct zs %s[2]", "struct zs *%s", "char %s[5]", "char %s[2][3]",
          "int %s[2][3]", "struct zs %s[2][2]", "void *%s", "char *%s", "enum ze %s", "long double %s", "_Bool %s",
          "union { int u; char v; } %s", "struct { int u; struct { char w; } v[2]; } %s", "unsigned char %s[3]", "float %s"]
NAMES = ["a", "b", "self", "args", "cls", "kwds", "PADDING", "PADDING_x", "PADDING0", "_PADDING_0", "class", "name", "type_", "fields",
         "_0a", "value", "field", "result", "contents", "_length", "x", "y", "z"]
ENC = ["utf-8", "utf-8", "latin-1", "ascii", "cp1252", "shift_jis", "koi8-r", "utf-16", "utf-7", "gb18030", None]


@st.composite
def callbacks(draw):
    n = draw(st.integers(1, 6))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    ms = []
    for nm in names:
        k = draw(st.sampled_from(["cb", "cb", "field", "bits"]))
        if k == "bits" and (not ms or "(*" in ms[-1]) and not any("long double" in m for m in ms):
            ws = [draw(st.integers(1, 30)) for _ in range(2)]
            ms += ["unsigned long %s_b%d:%d;" % (nm, i, w) for i, w in enumerate(ws)] + ["unsigned long %s_f:%d;" % (nm, 64 - sum(ws))]
        else:
            fs = [f for f in FIELDS if "long double" not in f or not any(":" in m for m in ms)]
            ms.append(draw(st.sampled_from(fs if k == "field" else CB)) % nm + ";")
    return "struct cb_rec { %s };\n" % " ".join(ms)


@st.composite
def gappy(draw):
    """a record with many members and many gaps"""
    n = draw(st.integers(8, 40))
    ts = draw(st.lists(st.sampled_from(["char", "short", "int", "long", "double", "char *", "struct zs", "_Bool"]), min_size=2, max_size=5))
    ms = ["%s m%d;" % (ts[i % len(ts)], i) for i in range(n)]
    return "struct gappy { %s };\n" % " ".join(ms)


@st.composite
def cases(draw, tier):
    labels = set()
    src = ""
    k = draw(st.sampled_from(["prog", "callbacks", "callbacks", "both", "gappy"]))
    if k == "gappy":
        src += PRE + draw(gappy())
        labels.add("many members")
    elif k != "prog":
        src += PRE + draw(callbacks())
        labels.add("callbacks")
    if k in ("prog", "both"):
        g, text = draw(cgen.programs(cgen.Opts(max_decls=6 if tier == "quick" else 10, dunder=True)))
        src += text
        labels |= g.labels
    return {"src": src, "ints": draw(st.lists(st.integers(0, 2 ** 40), min_size=8, max_size=30)),
            "strings": draw(st.lists(st.tuples(st.text(max_size=12), st.sampled_from(ENC)), max_size=3)),
            "labels": sorted(labels)}


class Falsy(list):
    """a callable object that is false"""

    def __init__(self, f):
        super().__init__()
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def method(self, *a):
        return self.f(*a)


class C17(Check):
    id = "C17"
    rule = "a case counts when a record with two or more members was constructed, read back and converted; distinct by source and values"
    quick, thorough = 4000, 70000
    assumptions = ["members whose name is that of a method (as_dict, bind, get_type) are not generated",
                   "bit fields only as full units of unsigned long", "a pointer in a dictionary is None when null, else the object it points "
                   "to or its dictionary; an anonymous member is a dictionary under its made up name"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        tu = layout.parse(case["src"])
        ns = env.load(env.generate(case["src"]))
        r = values.Rnd(case["ints"])
        count, labels = 0, set(case["labels"])
        for c in layout.top_level(tu):
            if c.kind not in (CK.STRUCT_DECL, CK.UNION_DECL) or not c.is_definition() or layout.is_anon(c):
                continue
            cls = env.get(ns, layout.py_prefix(c) + c.spelling)
            cnames = {x.spelling for x in c.type.get_fields()}
            ms = values.members(cls, cnames)
            for n in cnames:
                env.require(n == "" or n.startswith("(") or any(m[0] == n for m in ms) or
                            "(" in n, "%s lacks the member %s", cls.__name__, n)
            unnamed = [x for x in c.type.get_fields() if x.spelling == "" or "(" in x.spelling]
            extra = [m[0] for m in ms if m[0] not in cnames]
            env.require(len(extra) <= len(unnamed), "%s has the members %s, which the C record lacks", cls.__name__, extra)
            if issubclass(cls, ctypes.Union):
                self.union(cls, ms, r, cnames)
            else:
                self.construct(cls, ms, r, cnames)
                self.types(cls, ms)
                labels |= self.bind(cls, ms, r)
            count = max(count, len(ms))
        if "string_cast" in ns:
            for s, enc in case["strings"]:
                labels |= self.strings(ns, s, enc)
        return count >= 2, labels

    def union(self, cls, ms, r, cnames):
        for m in ms[:4]:
            keep = []
            a, e = values.bitvalue(m, r) if len(m) > 2 else values.make(m[1], r, keep)
            try:
                u = cls(**{m[0]: a})
            except Exception as x:
                raise env.Violation("%s(%s=%r): %s: %s" % (cls.__name__, m[0], a, type(x).__name__, x))
            values.check(getattr(u, m[0]), e, "%s.%s" % (cls.__name__, m[0]))
            values.check_dict(cls.as_dict(u), ("union", m[0], e), cls, cls.__name__, cnames)

    def build(self, cls, args, kw):
        try:
            return cls(*args, **kw)
        except Exception as x:
            raise env.Violation("%s(*%r, **%r): %s: %s" % (cls.__name__, args, kw, type(x).__name__, x))

    def construct(self, cls, ms, r, cnames):
        for how in ("positional", "keyword", "mixed"):
            keep, args, exp = [], [], {}
            for m in ms:
                a, e = values.bitvalue(m, r) if len(m) > 2 else values.make(m[1], r, keep)
                args.append(a)
                exp[m[0]] = e
            n = r.below(len(ms) + 1) if r.below(2) else len(ms)
            if how == "positional":
                o, done = self.build(cls, args[:n], {}), set(range(n))
            elif how == "keyword":
                done = {i for i in range(len(ms)) if n == len(ms) or r.below(2)}
                order = sorted(done, reverse=bool(r.below(2)))
                o = self.build(cls, [], {ms[i][0]: args[i] for i in order})
            else:
                done = set(range(n)) | {i for i in range(n, len(ms)) if r.below(2)}
                o = self.build(cls, args[:n], {ms[i][0]: args[i] for i in done if i >= n})
            full = {}
            for i, m in enumerate(ms):
                full[m[0]] = exp[m[0]] if i in done else values.zero(m[1])
            path = "%s (%s)" % (cls.__name__, how)
            values.check(o, ("rec", full), path)
            raw = bytes(o)
            for i in self.gaps(cls, ms):
                env.require(raw[i] == 0, "%s: the padding at %d holds %r", path, i, raw[i])
            values.check_dict(cls.as_dict(o), ("rec", full), cls, path + " as dictionary", cnames)
            # writing one member leaves the others alone
            if ms:
                i = r.below(len(ms))
                m = ms[i]
                a, e = values.bitvalue(m, r) if len(m) > 2 else values.make(m[1], r, keep)
                setattr(o, m[0], a)
                full[m[0]] = e
                values.check(o, ("rec", full), path + " after writing " + m[0])

    def gaps(self, cls, ms):
        """the bytes that no member occupies"""
        out = set(range(ctypes.sizeof(cls)))
        for m in ms:
            f = getattr(cls, m[0])
            n = ctypes.sizeof(m[1]) if len(m) > 2 else f.size
            out -= set(range(f.offset, f.offset + n))
        return out

    def types(self, cls, ms):
        for m in ms:
            env.require(cls.get_type(m[0]) is m[1], "%s.get_type(%r) is %r, the member has %r", cls.__name__, m[0], cls.get_type(m[0]), m[1])
        if ms:
            env.require(cls.get_type("zq_absent") is None, "get_type of an absent member is not None")

    def bindable(self, t):
        try:
            t(lambda *a: None)
            return True
        except TypeError:
            return False

    def bind(self, cls, ms, r):
        cbs = [m for m in ms if issubclass(m[1], FuncPtr)]
        if not ms or not cbs and r.below(4):
            return set()
        given, keep, exp, calls = {}, [], {}, {}
        for m in ms:
            if len(m) > 2:
                if r.below(2):
                    given[m[0]], exp[m[0]] = values.bitvalue(m, r)
                continue
            if m not in cbs:
                if r.below(3) == 0:
                    given[m[0]], exp[m[0]] = values.make(m[1], r, keep)
                else:
                    exp[m[0]] = values.zero(m[1])
                continue
            k = r.below(4)
            if k == 0:
                given[m[0]] = None
                exp[m[0]] = ("fn", 0)
            elif k < 3 and self.bindable(m[1]):
                given[m[0]], log = self.callback(m[1], r)
                calls[m[0]] = log
        before = dict(given)
        try:
            o = cls.bind(given)
        except Exception as x:
            raise env.Violation("%s.bind(%r): %s: %s" % (cls.__name__, before, type(x).__name__, x))
        env.require(given == before, "%s.bind changed the dictionary it was given: %r to %r", cls.__name__, before, given)
        env.require(type(o) is cls, "%s.bind gave %r", cls.__name__, o)
        values.check(o, ("rec", exp), "%s.bind" % cls.__name__)
        for m in cbs:
            f = getattr(o, m[0])
            if m[0] in calls:
                env.require(bool(f), "bound callback %s is null", m[0])
                self.call(m, f, calls[m[0]], r)
            elif m[0] not in given and self.bindable(m[1]):
                env.require(bool(f), "callback %s without binding is null", m[0])
                args = self.arguments(m[1], r)
                if args is not None:
                    got = f(*[a for a, _ in args])
                    env.require(not got or got == b"\0", "callback %s without binding returned %r", m[0], got)
        try:
            cls.bind({"zq_absent": None})
        except ValueError:
            pass
        except Exception as x:
            raise env.Violation("%s.bind of an unknown name: %s: %s" % (cls.__name__, type(x).__name__, x))
        else:
            raise env.Violation("%s.bind accepts an unknown name" % cls.__name__)
        return {"bind"} | ({"bound-callback-called"} if calls else set())

    def callback(self, t, r):
        res = t._restype_
        val = None
        if isinstance(res, type) and issubclass(res, ctypes._SimpleCData):
            val = values.simple(res, r)
        log = {"args": None, "value": val}

        def cb(*a):
            log["args"] = a
            return log["value"]
        k = r.below(6)
        if k == 0:
            cb = Falsy(cb)
        elif k == 1:
            cb = Falsy(cb).method
        elif k == 2:
            cb = functools.partial(cb)
        elif k == 3:
            cb = t(cb)
            log["keep"] = cb
        return cb, log

    def arguments(self, t, r):
        out = []
        for a in t._argtypes_ or ():
            if not issubclass(a, (ctypes._SimpleCData, ctypes._Pointer, FuncPtr)):
                return None
            if issubclass(a, ctypes._SimpleCData):
                v = values.simple(a, r)
                out.append((v, v))
            else:
                out.append((a() if issubclass(a, FuncPtr) else None, None))
        return out

    def call(self, m, f, log, r):
        args = self.arguments(m[1], r)
        if args is None:
            return
        got = f(*[a for a, _ in args])
        env.require(log["args"] is not None and len(log["args"]) == len(args), "callback %s received %r, called with %r", m[0],
                    log["args"], args)
        for g, (_, e) in zip(log["args"], args):
            if e is not None:
                env.require(g == e, "callback %s received %r instead of %r", m[0], g, e)
            else:
                env.require(not g, "callback %s received %r instead of a null pointer", m[0], g)
        env.require(got == log["value"], "callback %s returned %r, the function %r", m[0], got, log["value"])

    def strings(self, ns, s, enc):
        cast, pcast = ns["string_cast"], ns["char_pointer_cast"]
        env.require(cast(None) is None, "string_cast of a null pointer")
        raw = s.encode("utf-8", "replace").replace(b"\0", b"?")
        if enc is None:
            env.require(cast(pcast(raw, None), None) == raw, "bytes %r come back as %r", raw, cast(pcast(raw, None), None))
            env.require(pcast(None, None)._type_ is ctypes.c_char and not pcast(None), "pointer from None")
            return {"string-none"}
        try:
            b = s.encode(enc)
            ok = b"\0" not in b and b.decode(enc) == s
        except UnicodeError:
            ok = False
        if ok:
            p = pcast(s, enc)
            env.require(isinstance(p, ctypes.POINTER(ctypes.c_char)), "char_pointer_cast gave %r", p)
            env.require(cast(p, enc) == s, "%r in %s comes back as %r", s, enc, cast(p, enc))
            if enc == "utf-8":
                env.require(cast(pcast(s)) == s, "%r comes back as %r", s, cast(pcast(s)))
        env.require(pcast(raw, enc)[:len(raw)] == raw, "bytes are not passed as they are")
        for errors in ("replace", "ignore"):
            env.require(cast(pcast(raw, enc), enc, errors) == raw.decode(enc, errors), "string_cast(%r, %s, %s)", raw, enc, errors)
        try:
            want = raw.decode(enc)
        except UnicodeError:
            want = None
        try:
            got = cast(pcast(raw), enc)
        except UnicodeError:
            got = None
        env.require(got == want, "string_cast(%r, %s) is %r", raw, enc, got)
        return {"string:" + enc}


CHECK = C17()
