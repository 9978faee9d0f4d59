"""C05: enumerations."""
from .. import env, layout
from ..core import Check
from hypothesis import strategies as st

I32, U32, I64, U64 = 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64
MODES = [("", []), ("", []), ("", []), ("", []), ("", ["-fshort-enums"]), ("", ["-m32"]), ("i386-linux", []),
         ("arm-linux-gnueabi", []), ("x86_64-w64-windows-gnu", []), ("aarch64-linux-gnu", ["-fshort-enums"]),
         ("powerpc64-linux-gnu", []), ("", ["-std=c99"])]
EDGE = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, I32 - 1, I32, U32 - 1, U32, I64 - 1, U64 - 1,
        -1, -128, -129, -32768, -32769, -I32, -I32 - 1, -I64]


class Builder:
    def __init__(self, draw):
        self.draw, self.n = draw, 0
        self.labels, self.expect, self.out = set(), [], []
        self.known = []       # enumerators usable in expressions: (name, value)

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def num(self, a, b):
        return self.draw(st.integers(a, b))

    def chance(self, pct):
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def fresh(self, stems=("A", "red", "_p", "Mode", "x", "VALUE", "e", "False_", "k")):
        self.n += 1
        return "%s%d" % (self.pick(stems), self.n)

    def literal(self, v):
        """C text of a value"""
        if v < 0:
            if v == -I64:
                return "(-9223372036854775807L - 1)" if self.wide else "(-9223372036854775807LL - 1)"
            return "-%s" % self.literal(-v)
        suf = "" if v < I32 else ("ULL" if v >= I64 else "LL")
        k = self.pick(["d", "d", "x", "o", "suf"])
        if k == "x":
            return ("0x%X%s" if self.chance(50) else "0X%x%s") % (v, suf)
        if k == "o" and v:
            return "0%o%s" % (v, suf)
        if k == "suf" and v < I32:
            return "%d%s" % (v, self.pick(["L", "l", "LL"]))
        return "%d%s" % (v, suf)

    def value(self, lo, hi):
        """(text or None for automatic, value)"""
        k = self.pick(["auto"] * 4 + ["lit"] * 3 + ["edge"] * 3 + ["char", "shift", "ref", "refop", "paren", "not", "cond",
                                                                  "sizeof", "dup", "cmp"])
        if k == "auto":
            return None, None
        if k == "lit":
            v = self.num(max(lo, -2000), min(hi, 2000))
            return self.literal(v), v
        if k == "edge":
            c = [x for x in EDGE if lo <= x <= hi]
            v = self.pick(c)
            return self.literal(v), v
        self.labels.add("init:" + k)
        if k == "char":
            ch, v = self.pick([("'a'", 97), ("'0'", 48), ("' '", 32), ("'\\n'", 10), ("'\\0'", 0), ("'\\x41'", 65),
                               ("'\\''", 39), ("'\\\\'", 92), ("'\"'", 34)])
            return ch, v
        if k == "shift":
            b = self.num(0, 30 if hi < U32 else 62)
            v = 1 << b
            if not lo <= v <= hi:
                return "1", 1
            return "%s << %d" % ("1" if b < 31 else "1LL", b), v
        small = [x for x in self.known if -1000 <= x[1] <= 100000 and lo <= x[1] and x[1] * 4 <= hi]
        if k in ("ref", "refop", "dup") and small:
            n, v = self.pick(small)
            if k == "refop":
                w = v + 3
                if lo <= w <= hi:
                    return "%s + 3" % n, w
            return n, v
        if k == "paren":
            v = self.num(0, 100)
            return "(%d)" % v, v
        if k == "not":
            if lo <= -6:
                return "~5", -6
            return "!5", 0
        if k == "cond":
            return "1 ? 7 : 9", 7
        if k == "sizeof":
            return "(int)sizeof(char[11])", 11
        if k == "cmp":
            return "3 > 2", 1
        return "4", 4

    def body(self):
        n = self.pick([1, 1, 2, 3, 4, 5, 6])
        if self.chance(4):
            return self.long_body()
        kind = self.pick(["int"] * 6 + ["u32", "u64", "i64", "i32"])
        lo, hi = {"int": (-I32, I32 - 1), "u32": (0, U32 - 1), "u64": (0, U64 - 1), "i64": (-I64, I64 - 1),
                  "i32": (-I32, I32 - 1)}[kind]
        if self.chance(30):
            lo = 0
        items, vals, prev, mine = [], [], -1, []
        for i in range(n):
            text, v = self.value(lo, hi)
            if v is None and (prev + 1 > hi or prev == I64 - 1):
                text, v = "0", 0
            nm = self.fresh()
            if v is None:
                v = prev + 1
                items.append(nm)
                if i and prev >= I32 - 1:
                    self.labels.add("automatic-beyond-int")
            else:
                items.append("%s = %s" % (nm, text))
            prev = v
            vals.append((nm, v))
            mine.append((nm, v))
            self.known.append((nm, v))
        if any(v < 0 for _, v in vals):
            self.labels.add("negative")
        if any(v >= I32 or v < -I32 for _, v in vals):
            self.labels.add("wide")
        if len(set(v for _, v in vals)) < len(vals):
            self.labels.add("duplicate")
        self.expect.append([[a, b] for a, b in vals])
        return ", ".join(items) + ("," if self.chance(20) else "")

    def long_body(self):
        """many constants, one of them out of order"""
        self.labels.add("long")
        n = self.num(7, 300)
        at = self.num(0, n - 1)
        stem = self.fresh()
        odd = self.pick([-1, -300, 40000, 100000, -I32, I32 - 1000, 1])
        items, vals, v = [], [], -1
        for i in range(n):
            nm, v = "%s_%d" % (stem, i), odd if i == at else v + 1
            items.append("%s = %s" % (nm, self.literal(v)) if i == at else nm)
            vals.append([nm, v])
        if odd < 0:
            self.labels.add("negative")
        self.expect.append(vals)
        return ", ".join(items)

    def decl(self, packable=True):
        k = self.pick(["named"] * 4 + ["anon"] * 2 + ["td", "td", "tdtag", "var", "anonvar", "record", "nested", "inmember",
                                                     "anonmember", "nomember", "param", "ret", "ptr", "fwd", "use", "packed",
                                                     "fixed", "tdptr", "union"])
        self.labels.add("form:" + k)
        if k == "use" and not self.named:
            k = "named"
        t = self.fresh(("T", "enum_", "e", "color", "_k"))
        o = self.out
        if k == "named":
            o.append("enum %s { %s };" % (t, self.body()))
            self.named.append("enum " + t)
        elif k == "anon":
            o.append("enum { %s };" % self.body())
        elif k == "td":
            o.append("typedef enum { %s } %s;" % (self.body(), t))
            self.named.append(t)
        elif k == "tdtag":
            o.append("typedef enum %s { %s } %s_t;" % (t, self.body(), t))
            if self.chance(50):
                o.append("typedef %s_t %s_u;" % (t, t))
            self.tables.append([t + "_t", t])
            self.named.append(t + "_t")
        elif k == "var":
            o.append("enum %s { %s } v_%s;" % (t, self.body(), t))
        elif k == "anonvar":
            o.append("enum { %s } v_%s;" % (self.body(), t))
        elif k == "record":
            o.append("struct s_%s { char a; enum %s { %s } b; enum { %s } c; short d; };" % (t, t, self.body(), self.body()))
        elif k == "union":
            o.append("union s_%s { char a; enum %s { %s } b; enum { %s } c; short d; };" % (t, t, self.body(), self.body()))
        elif k == "nested":
            o.append("struct s_%s { char a; struct { enum { %s } b; char c; } d; union { enum { %s } e; }; };" % (
                t, self.body(), self.body()))
        elif k == "inmember":
            o.append("struct s_%s { enum %s { %s } *p; enum { %s } q[2]; };" % (t, t, self.body(), self.body()))
        elif k == "anonmember":
            o.append("struct s_%s { enum { %s } a, b; int c; };" % (t, self.body()))
        elif k == "nomember":
            o.append("struct s_%s { enum %s { %s }; int c; enum { %s }; };" % (t, t, self.body(), self.body()))
        elif k == "param":
            n = len(self.known)
            o.append("void f_%s(enum %s { %s } p, int q);" % (t, t, self.body()))
            del self.known[n:]  # prototype scope
        elif k == "ret":
            o.append("enum %s { %s } f_%s(void);" % (t, self.body(), t))
        elif k == "ptr":
            o.append("enum %s { %s } *v_%s;" % (t, self.body(), t))
        elif k == "tdptr":
            o.append("typedef enum { %s } *p_%s, a_%s[2];" % (self.body(), t, t))
        elif k == "fwd":
            o.append("enum %s;" % t)
            if self.named and self.chance(50):
                o.append("struct s_%s { %s x; };" % (t, self.pick(self.named)))
            o.append("enum %s { %s };" % (t, self.body()))
            self.named.append("enum " + t)
        elif k == "packed":
            if self.chance(50):
                o.append("enum __attribute__((packed)) %s { %s };" % (t, self.body()))
            else:
                o.append("enum %s { %s } __attribute__((packed));" % (t, self.body()))
            self.named.append("enum " + t)
        elif k == "fixed":
            ty, lo, hi = self.pick([("unsigned char", 0, 255), ("short", -32768, 32767), ("unsigned int", 0, U32 - 1),
                                    ("long long", -I64, I64 - 1), ("signed char", -128, 127), ("int", -I32, I32 - 1),
                                    ("unsigned long long", 0, U64 - 1)])
            v = self.pick([x for x in EDGE if lo <= x <= hi])
            # the sign of the type follows the values in the generated code
            nm, nm2 = self.fresh(), self.fresh()
            w = -1 if lo < 0 else 1
            o.append("enum %s : %s { %s = %s, %s = %s };" % (t, ty, nm, self.literal(v), nm2, self.literal(w)))
            self.expect.append([[nm, v], [nm2, w]])
        else:
            o.append("struct s_%s { char a; %s b; %s *c; };" % (t, self.pick(self.named), self.pick(self.named)))


@st.composite
def cases(draw, tier):
    b = Builder(draw)
    b.named, b.tables = [], []
    target, flags = draw(st.sampled_from(MODES))
    b.wide = False
    for _ in range(draw(st.integers(1, 9 if tier == "thorough" else 5))):
        b.decl()
    return {"src": "\n".join(b.out) + "\n", "expect": b.expect, "tables": b.tables, "labels": sorted(b.labels),
            "target": target, "flags": flags, "kinds": draw(st.sampled_from(["cdefmstu", "cdefstu", "e", "esu", "cdefstu"]))}


class C05(Check):
    id = "C05"
    rule = ("a set of enumerations counts when one has a negative, duplicate, wider than 31 bit or computed constant, is not "
            "a plain named enumeration, or is compiled with a flag or target that changes enum sizes; distinct by text and "
            "options")
    quick, thorough = 9000, 120000
    assumptions = ["values come from the generating model and are cross-checked with libclang; sizes come from libclang",
                   "an enumeration without negative constants is unsigned in Python, whatever C calls it",
                   "an enumerator with the name of its own or another enumeration's tag is a finding",
                   "a table maps a value shared by several enumerators to any of them"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        t, flags = case["target"], list(case["flags"])
        tf = (["-target", t] if t else []) + flags + ["-Wno-everything"]
        tu = layout.parse(case["src"], tf, discard=bool(t) or bool(flags))
        text = env.generate(case["src"], target=t or None, flags=flags, kinds=case["kinds"])
        ns = env.load(text)
        exported = ns.get("__all__")
        tables = [v for k, v in ns.items() if k.endswith("__enumvalues")]
        for group in case["expect"]:
            for n, v in group:
                env.require(n in ns, "enumerator %s is not defined", n)
                env.require(type(ns[n]) is int and ns[n] == v, "enumerator %s is %r, C value %d", n, ns[n], v)
                env.require(n in exported, "enumerator %s is not exported", n)
            names = dict((n, v) for n, v in group)
            env.require(any(set(tb) == set(names.values()) and all(names.get(x) == k for k, x in tb.items())
                            for tb in tables), "no value table for %r", group)
        w = layout.Walker(ns, 4 if t in ("i386-linux", "arm-linux-gnueabi") or "-m32" in flags else 8)
        for c in layout.top_level(tu):
            if c.kind == layout.CursorKind.ENUM_DECL:
                layout.check_enum(w, c)
                self.holds(ns, c)
            elif "s" in case["kinds"] and c.kind in (layout.CursorKind.STRUCT_DECL, layout.CursorKind.UNION_DECL):
                layout.check_decl(w, c)
        if "t" in case["kinds"]:
            for a, b in case["tables"]:
                env.require(ns.get(a) is ns.get(b) is not None, "typedef %s is not the enumeration %s", a, b)
                env.require(ns.get(a + "__enumvalues") == ns.get(b + "__enumvalues"), "typedef %s has another table", a)
        labels = list(case["labels"]) + ["target:" + t] + flags + ["kinds:" + case["kinds"]]
        return bool(set(case["labels"]) - {"form:named"}) or bool(t or flags), labels

    def holds(self, ns, c):
        if layout.is_anon(c) or c != c.get_definition():
            return
        py = ns[c.spelling]
        for v in c.get_children():
            if v.kind == layout.CursorKind.ENUM_CONSTANT_DECL:
                env.require(py(v.enum_value).value == v.enum_value, "%s cannot hold %s = %d", c.spelling, v.spelling,
                            v.enum_value)


CHECK = C05()
