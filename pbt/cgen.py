"""Generator of valid C declarations (C text out).

Construction, not rejection: every program it builds is accepted by clang.  What it
leaves out on purpose (recorded findings) is switched by the Opts fields, so each
check can say what it excludes."""
import dataclasses
import re

from hypothesis import strategies as st

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int",
        "long", "unsigned long", "long long", "unsigned long long"]
FLOATS = ["float", "double", "long double"]
PRIMS = INTS + FLOATS + ["_Bool"]

# identifiers that are fine in C and awkward in Python or in the generated text
FIELD_NAMES = ["a", "b", "c", "x", "y", "next", "len", "value", "class", "def", "None", "lambda", "self",
               "in", "from", "_x", "__y", "type", "name", "is", "pass", "import", "yield", "async", "print"]
ELSEWHERE = ["DWORD", "BOOL", "LONG", "HANDLE", "POINT", "RECT", "tagMSG", "LPVOID", "BYTE", "MSG", "WORD", "SIZE", "c_int", "POINTER",
             "addressof", "CDLL", "byref", "Array", "string", "c_uint8", "util", "windll"]
STEMS = ["node", "list", "item", "buf", "ctx", "opt", "hdr", "Pkt", "T", "_priv", "__int", "data_t", "e",
         "Point", "x1", "my_struct", "struct_x", "U", "\u00e9l\u00e9ment",
         "a_name_that_alone_takes_more_than_a_whole_line_of_the_export_list_of_the_module"]


SIZED = [("signed char", "int8_t"), ("unsigned char", "uint8_t"), ("short", "int16_t"), ("unsigned short", "uint16_t"),
         ("__INT32_TYPE__", "int32_t"), ("__UINT32_TYPE__", "uint32_t"), ("__INT64_TYPE__", "int64_t"), ("__UINT64_TYPE__", "uint64_t"),
         ("__SIZE_TYPE__", "size_t"), ("__WCHAR_TYPE__", "wchar_t"), ("__INTPTR_TYPE__", "intptr_t"), ("__PTRDIFF_TYPE__", "ptrdiff_t"),
         ("unsigned char", "byte"), ("unsigned char", "uint_fast8_t"), ("unsigned int", "u_int32_t"), ("long", "time_t"),
         ("long", "int_fast16_t"), ("unsigned long", "uint_fast32_t"), ("signed char", "int_least8_t"), ("short", "int_least16_t"),
         ("__UINTPTR_TYPE__", "uintptr_t"), ("__INTMAX_TYPE__", "intmax_t"), ("long", "off_t"), ("long", "ssize_t"), ("int", "pid_t"),
         ("unsigned short", "char16_t"), ("unsigned int", "wint_t"), ("unsigned char", "u8"), ("unsigned short", "uint")]


@dataclasses.dataclass
class Opts:
    max_decls: int = 7
    max_fields: int = 6
    depth: int = 2
    bitfields: bool = False
    bitfield_styles: tuple = ("run",)
    int128: bool = True
    longdouble: bool = True
    wchar: bool = False
    anon: bool = True
    named_anon: bool = True
    packed: bool = True
    aligned: bool = True
    funcptr: bool = True
    flexible: bool = True
    enums: bool = True
    enum_fields: bool = True
    typedefs: bool = True
    unions: bool = True
    forward: bool = True
    qualifiers: bool = True
    functions: bool = False
    variables: bool = False
    empty: bool = True
    weird_names: bool = True
    dunder: bool = True
    arrays: bool = True
    big_arrays: bool = False
    large: bool = True
    sized: bool = True
    by_value_args: bool = True


class Gen:
    def __init__(self, draw, o):
        self.draw, self.o = draw, o
        self.n = 0
        self.records = []     # C spellings of complete record types
        self.embeddable = []  # those that may be members (no flexible array inside)
        self.fwd = []         # spellings of incomplete ones
        self.pending = []     # forward declared, to be completed later
        self.enums = []
        self.typedefs = []
        self.used_elsewhere = []
        self.array_typedefs = []
        self.fn_typedefs = []
        self.inner = []
        self.out = []
        self.labels = set()
        self.decls = []       # [kind, name]

    # -- helpers -----------------------------------------------------------
    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def chance(self, pct):
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def num(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def fresh(self, stem=None):
        self.n += 1
        stem = stem or (self.pick(STEMS) if self.o.weird_names else "n")
        if not self.o.dunder and stem.startswith("__"):
            stem = stem.strip("_")
        return "%s_%d" % (stem, self.n)

    def prims(self):
        p = list(INTS) + ["float", "double", "_Bool"]
        if self.o.longdouble:
            p.append("long double")
        if self.o.int128:
            p += ["__int128", "unsigned __int128"]
        if self.o.wchar:
            p += ["__WCHAR_TYPE__"]
        return p

    # -- declarators: returns text of "T name" ---------------------------------
    def declare(self, name, depth=None, obj=True, arrays=True):
        """a declaration `base declarator` of name, object type"""
        depth = self.o.depth if depth is None else depth
        return self.declarator(name, depth, arrays, in_ptr=False)

    def base(self, complete=True):
        """a base type specifier usable by value"""
        ch = ["prim"] * 6
        if self.embeddable:
            ch += ["rec"] * 3
        if self.enums and self.o.enum_fields:
            ch += ["enum"] * 2
        if self.typedefs:
            ch += ["td"] * 3
        k = self.pick(ch)
        if k == "prim":
            b = self.pick(self.prims())
        elif k == "rec":
            b = self.pick(self.embeddable)
            self.labels.add("nested-record")
        elif k == "enum":
            b = self.pick(self.enums)
            self.labels.add("enum-member")
        else:
            b = self.pick(self.typedefs)
            self.labels.add("typedef-use")
        if self.o.qualifiers and self.chance(3):
            self.labels.add("typeof")
            b = "__typeof__(%s)" % b
        if self.o.qualifiers and self.chance(8):
            b = self.pick(["const ", "volatile "]) + b
        return b

    def pointee(self):
        ch = ["base"] * 4 + ["void"] * 2
        if self.fwd or self.o.forward:
            ch += ["fwd"] * 2
        if self.records:
            ch += ["rec"] * 2
        k = self.pick(ch)
        if k == "void":
            return self.pick(["void", "const void"])
        if k == "rec":
            return self.pick(self.records)
        if k == "fwd":
            if self.fwd and self.chance(70):
                self.labels.add("forward-ref")
                return self.pick(self.fwd)
            if not self.o.forward:
                return self.base()
            kw = self.pick(["struct", "union"]) if self.o.unions else "struct"
            t = "%s %s" % (kw, self.fresh())
            # declared at file scope, before it is used in a prototype or a member
            self.out.append("%s;" % t)
            self.fwd.append(t)
            if self.chance(50):
                self.pending.append(t)
            self.labels.add("forward-ref")
            return t
        return self.base()

    def big(self):
        """a number of elements around the sizes of bytes and words"""
        return self.pick([127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20])

    def declarator(self, name, depth, arrays, in_ptr):
        ch = ["plain"] * 5
        if depth > 0:
            ch += ["ptr"] * 3
            if arrays and self.o.arrays:
                ch += ["arr"] * 2 + ["arr2", "ptrarr", "arrptr"]
            if self.o.funcptr:
                ch += ["fn"] * 2
        k = self.pick(ch)
        if k == "plain":
            if self.array_typedefs and arrays and self.chance(15):
                self.labels.add("array-typedef-member")
                return "%s %s%s" % (self.pick(self.array_typedefs), name, self.pick(["", "", "[2]"]))
            if self.fn_typedefs and self.chance(15):
                self.labels.add("function-typedef-member")
                return "%s *%s" % (self.pick(self.fn_typedefs), name)
            return "%s %s" % (self.base(), name)
        if k == "ptr":
            self.labels.add("pointer")
            stars = "*" * self.pick([1, 1, 1, 2, 3])
            q = self.pick(["", "", "", " const "]) if self.o.qualifiers else ""
            return "%s %s%s%s" % (self.pointee(), stars, q, name)
        if k == "arr":
            self.labels.add("array")
            if self.o.big_arrays and self.chance(8):
                self.labels.add("big-array")
                return "%s %s[%d]" % (self.pick(["char", "short", "int", "unsigned char"]), name, self.big())
            return "%s %s[%d]" % (self.base(), name, self.num(1, 7))
        if k == "arr2":
            self.labels.add("array2d")
            if self.o.big_arrays and self.chance(5):
                self.labels.add("big-array")
                return "%s %s[%d][%d]" % (self.pick(["char", "short"]), name, *self.pick([(300, 300), (1, 70000), (70000, 1)]))
            return "%s %s[%d][%d]" % (self.base(), name, self.num(1, 4), self.num(1, 4))
        if k == "ptrarr":
            self.labels.add("array-of-pointer")
            return "%s *%s[%d]" % (self.pointee(), name, self.num(1, 4))
        if k == "arrptr":
            self.labels.add("pointer-to-array")
            return "%s (*%s)[%d]" % (self.base(), name, self.num(1, 4))
        self.labels.add("function-pointer")
        if self.chance(12):
            self.labels.add("pointer-to-function-pointer")
            return self.funcptr("*" * self.num(1, 2) + name, depth - 1)
        if self.chance(12):
            self.labels.add("array-of-function-pointer")
            return self.funcptr("%s[%d]" % (name, self.num(1, 3)), depth - 1)
        return self.funcptr(name, depth - 1)

    def ret(self):
        k = self.pick(["void", "prim", "prim", "ptr", "base"])
        if k == "void":
            return "void "
        if k == "prim":
            return self.pick(INTS + ["float", "double"]) + " "
        if k == "ptr":
            return self.pointee() + " *"
        return self.base() + " " if self.o.by_value_args else "int "

    def params(self, depth, named):
        n = self.num(0, 4)
        if n == 0:
            return "void"
        ps = []
        for i in range(n):
            nm = "p%d" % i if named else ""
            ps.append(self.param(nm, depth))
        return ", ".join(ps)

    def param(self, nm, depth):
        k = self.pick(["base", "base", "ptr", "ptr"] + (["fn"] if depth > 0 and self.o.funcptr else []))
        if k == "base":
            b = self.base() if self.o.by_value_args else self.pick(INTS)
            return ("%s %s" % (b, nm)).strip()
        if k == "ptr":
            return "%s *%s" % (self.pointee(), nm)
        if self.chance(20):
            self.labels.add("pointer-to-function-pointer")
            nm = "*" + nm
        return self.funcptr(nm, depth - 1)

    def funcptr(self, name, depth):
        r = self.ret()
        return "%s(*%s)(%s)" % (r, name, self.params(depth, self.chance(50)))

    # -- records -----------------------------------------------------------
    def field_names(self, n, used):
        names = []
        for _ in range(n):
            nm = self.pick(FIELD_NAMES if self.o.weird_names else "abcdefgh")
            if self.o.weird_names and not self.o.bitfields and self.chance(1):
                # what generated names for unnamed members look like
                nm = self.pick(["_0", "_0", "_1", "_2", "_3"])
                self.labels.add("generated-looking-name")
            if not self.o.dunder and nm.startswith("__"):
                nm = nm[2:]
            while nm in used:
                self.n += 1
                nm = "%s%d" % (nm, self.n)
            used.add(nm)
            names.append(nm)
        return names

    def body(self, used=None, depth=1, allow_flex=True, kw="struct"):
        """text of the members; returns (text, embeddable)"""
        used = set() if used is None else used
        lines, flex = [], False
        n = self.num(1, self.o.max_fields)
        for i in range(n):
            ch = ["f"] * 7
            if self.o.bitfields:
                ch += ["bf"] * 3
            if depth > 0 and self.o.anon:
                ch += ["anon"]
            if depth > 0 and self.o.named_anon:
                ch += ["named", "inner"]
                if self.o.enum_fields:
                    ch += ["inenum"]
            k = self.pick(ch)
            if k == "f":
                nm, = self.field_names(1, used)
                lines.append(self.declare(nm) + ";")
            elif k == "bf":
                lines += self.bitrun(used)
            elif k == "anon":
                self.labels.add("anonymous-member")
                kw2 = self.pick(["struct", "union"]) if self.o.unions else "struct"
                b, _ = self.body(used, depth - 1, False, kw2)
                lines.append("%s { %s };" % (kw2, b))
            elif k == "inenum":
                self.labels.add("enum-defined-in-member")
                nm, = self.field_names(1, used)
                tag = self.fresh() if self.chance(40) else ""
                lines.append("enum %s { %s } %s;" % (tag, self.enum_body(), nm))
            else:
                self.labels.add("anonymous-named-member")
                kw2 = self.pick(["struct", "union"]) if self.o.unions else "struct"
                b, _ = self.body(set(), depth - 1, False, kw2)
                tag = ""
                if k == "inner":
                    self.labels.add("record-defined-in-member")
                    tag = self.fresh()
                nms = self.field_names(self.pick([1, 1, 1, 2]), used)
                ds = [self.pick(["%s", "%s", "%s", "*%s", "%s[2]"]) % nm for nm in nms]
                if tag and self.chance(15):
                    self.labels.add("record-defined-without-member")
                    ds = []
                    lines.append("int %s;" % nms[0])
                lines.append("%s %s { %s } %s;" % (kw2, tag, b, ", ".join(ds)))
                if tag:
                    # C gives the tag file scope
                    self.inner.append("%s %s" % (kw2, tag))
        if self.o.flexible and allow_flex and kw == "struct" and self.chance(6):
            nm, = self.field_names(1, used)
            lines.append("%s %s[%s];" % (self.pick(INTS), nm, self.pick(["", "0"])))
            self.labels.add("flexible-array")
            flex = True
        return " ".join(lines), not flex

    BF_TYPES = [("unsigned int", 32), ("int", 32), ("unsigned char", 8), ("signed char", 8),
                ("unsigned short", 16), ("short", 16), ("unsigned long", 64), ("long long", 64),
                ("_Bool", 1)]

    def bitrun(self, used):
        """a run of bit fields of one type"""
        self.labels.add("bitfield")
        t, w = self.pick(self.BF_TYPES)
        out = []
        for i in range(self.num(1, 4)):
            nm, = self.field_names(1, used)
            out.append("%s %s:%d;" % (t, nm, self.num(1, w)))
        return out

    def attrs(self):
        a = []
        if self.o.packed and self.chance(10):
            a.append("packed")
            self.labels.add("packed")
        if self.o.aligned and self.chance(8):
            a.append("aligned(%d)" % self.pick([1, 2, 4, 8, 16, 32]))
            self.labels.add("aligned")
        return " __attribute__((%s))" % ", ".join(a) if a else ""

    def record(self, spelling=None):
        if spelling is None:
            kw = self.pick(["struct", "struct", "struct", "union"]) if self.o.unions else "struct"
            tag = self.fresh()
            spelling = "%s %s" % (kw, tag)
            # a self reference is allowed in the body
            if self.o.forward and self.chance(30):
                self.fwd.append(spelling)
        kw = spelling.split()[0]
        self.labels.add(kw)
        b, emb = self.body(kw=kw)
        text = "%s { %s }%s;" % (spelling, b, self.attrs())
        self.out.append(text)
        if spelling in self.fwd:
            self.fwd.remove(spelling)
        if spelling in self.pending:
            self.pending.remove(spelling)
        self.records.append(spelling)
        if emb:
            self.embeddable.append(spelling)
        self.decls.append(["record", spelling])
        self.records += self.inner
        self.embeddable += self.inner
        self.inner = []

    def typedef(self):
        k = self.pick(["base", "decl", "decl", "anonrec", "tagrec", "fwd", "anonenum", "fntype", "retd"])
        nm = self.fresh()
        elsewhere = [x for x in ELSEWHERE if x not in self.used_elsewhere]
        if self.o.weird_names and elsewhere and self.chance(6):
            # a name that ctypes, or a module of Python about ctypes, has too
            nm = self.pick(elsewhere)
            self.used_elsewhere.append(nm)
            self.labels.add("name-of-ctypes")
        self.labels.add("typedef")
        sized = [x for x in SIZED if x[1] not in self.typedefs]
        if k == "base" and self.o.sized and sized and self.chance(30):
            # the names of stdint.h, of which the generator knows some
            t, nm = self.pick(sized)
            self.labels.add("stdint-name")
            self.out.append("typedef %s %s;" % (t, nm))
            self.typedefs.append(nm)
        elif k == "base":
            self.out.append("typedef %s %s;" % (self.base(), nm))
            self.typedefs.append(nm)
        elif k == "decl":
            self.out.append("typedef %s;" % self.declare(nm))
            last = re.sub(r"__typeof__\([^()]*\)", "T", self.out[-1])
            if (last.endswith("];") and "(" not in last or re.search(r"\(\*\w+\[", last)
                    or last.split()[1] in self.array_typedefs):
                # an array type: may be a member or a pointee, never a return value
                self.array_typedefs.append(nm)
                self.labels.add("typedef-array")
            else:
                self.typedefs.append(nm)
        elif k in ("anonrec", "tagrec"):
            kw = self.pick(["struct", "union"]) if self.o.unions else "struct"
            tag = self.fresh() if k == "tagrec" else ""
            b, emb = self.body(kw=kw)
            self.out.append("typedef %s %s { %s }%s %s;" % (kw, tag, b, self.attrs(), nm))
            self.labels.add("typedef-" + k)
            if emb:
                self.typedefs.append(nm)
            self.records += self.inner
            self.embeddable += self.inner
            self.inner = []
        elif k == "fntype":
            if not self.o.funcptr:
                return self.typedef_simple(nm)
            self.out.append("typedef %s%s(%s);" % (self.ret(), nm, self.params(0, False)))
            self.fn_typedefs.append(nm)
        elif k == "retd":
            if not self.typedefs:
                return self.typedef_simple(nm)
            self.out.append("typedef %s %s;" % (self.pick(self.typedefs), nm))
            self.typedefs.append(nm)
        elif k == "fwd":
            if not self.o.forward:
                return self.typedef_simple(nm)
            kw = self.pick(["struct", "union"]) if self.o.unions else "struct"
            t = "%s %s" % (kw, self.fresh())
            self.out.append("typedef %s %s;" % (t, nm))
            self.fwd.append(t)
            if self.chance(60):
                self.pending.append(t)
        else:
            if not self.o.enums:
                return self.typedef_simple(nm)
            self.out.append("typedef enum { %s } %s;" % (self.enum_body(), nm))
            if self.o.enum_fields:
                self.typedefs.append(nm)
        self.decls.append(["typedef", nm])

    def typedef_simple(self, nm):
        self.out.append("typedef %s %s;" % (self.pick(INTS), nm))
        self.typedefs.append(nm)
        self.decls.append(["typedef", nm])

    def enum_body(self):
        n = self.num(1, 5)
        vals = []
        for i in range(n):
            nm = self.fresh("EV")
            k = self.pick(["auto", "auto", "lit", "neg", "hex", "expr", "big"])
            if k == "auto":
                vals.append(nm)
            elif k == "lit":
                vals.append("%s = %d" % (nm, self.num(0, 1000)))
            elif k == "neg":
                vals.append("%s = -%d" % (nm, self.num(1, 1000)))
            elif k == "hex":
                vals.append("%s = 0x%x" % (nm, self.num(0, 0x7ffffffe)))
            elif k == "expr":
                vals.append("%s = (1 << %d) | %d" % (nm, self.num(0, 20), self.num(0, 7)))
            else:
                vals.append("%s = %d" % (nm, self.pick([127, 128, 255, 256, 32767, 65535, 2147483646])))
        return ", ".join(vals)

    def enum(self):
        self.labels.add("enum")
        if self.chance(25):
            self.out.append("enum { %s };" % self.enum_body())
            return
        tag = self.fresh()
        self.out.append("enum %s { %s };" % (tag, self.enum_body()))
        self.enums.append("enum " + tag)
        self.decls.append(["enum", tag])

    def fparam(self, nm, depth):
        """a parameter of a declared function: also the forms that decay"""
        k = self.pick(["plain"] * 6 + ["array", "array", "fn", "arrtd", "fntd", "qual", "arrptr"])
        if k == "array":
            self.labels.add("array-parameter")
            e = self.base()
            nm = nm or self.fresh("q")
            return "%s %s%s" % (e, nm, self.pick(["[]", "[3]", "[%d]" % self.num(1, 9), "[][2]", "[2][4]", "[const 2]",
                                                  "[static 3]", "[*(int *)16]", "[2][*(int *)16]", "[][*(int *)16]",
                                                  "[*(int *)16][*(int *)16]"]))
        if k == "fn" and self.o.funcptr:
            self.labels.add("function-parameter")
            return "%s%s(%s)" % (self.ret(), nm or self.fresh("q"), self.params(0, False))
        if k == "arrtd" and self.array_typedefs:
            self.labels.add("array-typedef-parameter")
            return "%s %s" % (self.pick(self.array_typedefs), nm)
        if k == "fntd" and self.fn_typedefs:
            self.labels.add("function-typedef-parameter")
            return "%s %s%s" % (self.pick(self.fn_typedefs), self.pick(["", "*"]), nm)
        if k == "qual":
            return "%s *%s %s" % (self.pointee(), self.pick(["const", "restrict", "volatile", "*"]), nm)
        if k == "arrptr":
            return "%s (*%s)[%s]" % (self.base(), nm, self.pick(["1", "2", "5", "*(int *)16"]))
        return self.param(nm, depth)

    def fn_decl(self, nm, named):
        n = self.num(0, 6)
        ps = ", ".join(self.fparam("p%d" % i if named else "", 1) for i in range(n)) or "void"
        if ps != "void" and self.chance(15):
            self.labels.add("variadic")
            ps += ", ..."
        k = self.pick(["plain"] * 7 + ["fnret", "arrret"])
        if k == "fnret" and self.o.funcptr:
            self.labels.add("returns-function-pointer")
            return "%s(*%s(%s))(%s)" % (self.ret(), nm, ps, self.params(0, False))
        if k == "arrret":
            return "%s (*%s(%s))[%d]" % (self.base(), nm, ps, self.num(1, 4))
        return "%s%s(%s)" % (self.ret(), nm, ps)

    def function(self):
        nm = self.fresh("fn")
        self.labels.add("function")
        k = self.pick(["proto"] * 8 + ["extern", "inline", "noproto", "noproto-first", "again", "typedef", "def"])
        named = k in ("inline", "def") or self.chance(70)
        if k == "noproto":
            d = "%s%s()" % (self.ret(), nm)
        elif k == "noproto-first":
            # compatible only when no parameter is subject to promotion
            r = self.ret()
            ps = ", ".join(self.pick(["int", "unsigned long", "double", "void *", "char *"])
                           for _ in range(self.num(1, 4)))
            self.out.append("%s%s();" % (r, nm))
            d = "%s%s(%s)" % (r, nm, ps)
        elif k == "typedef" and self.fn_typedefs:
            d = "%s %s" % (self.pick(self.fn_typedefs), nm)
            k = "proto"
        else:
            d = self.fn_decl(nm, named)
        if k not in ("proto",):
            self.labels.add("function-" + k)
        if k == "extern":
            d = "extern " + d
        if k == "again":
            self.out.append(d + ";")
        if k in ("inline", "def"):
            self.out.append("%s%s { for (;;) ; }" % ("static inline " if k == "inline" else "", d))
        else:
            self.out.append(d + ";")
        self.decls.append(["function", nm])

    def large(self):
        """one declaration with many or deep parts"""
        k = self.pick(["members", "members", "anons", "nest", "stars", "dims", "fnnest", "params", "params", "enum", "decls", "args", "args"])
        self.labels.add("large-" + k)
        tag = "struct " + self.fresh("big")
        if k == "members":
            n = self.num(8, 60)
            ds = [self.pick(["char", "short", "int", "long long", "double", "char *", "void **", "float"] + self.embeddable[:3])
                  for _ in range(self.num(1, 5))]
            b = " ".join("%s m%d;" % (ds[i % len(ds)], i) for i in range(n))
        elif k == "anons" and self.o.anon:
            n = self.num(3, 14)
            kws = [self.pick(["struct", "union"]) if self.o.unions else "struct" for _ in range(3)]
            b = "char m; " + " ".join("%s { %s; };" % (kws[i % 3], self.pick(["char a%d", "int a%d", "char a%d; int b%d"]).replace("%d", str(i)))
                                      for i in range(n))
        elif k == "nest" and self.o.named_anon and self.o.anon:
            b = "char z; long y;"
            for i in range(self.num(3, 12)):
                kw = self.pick(["struct", "struct", "union"]) if self.o.unions else "struct"
                b = "char c%d; %s { %s } %s; int d%d;" % (i, kw, b, self.pick(["", "n%d" % i, "n%d" % i]), i)
        elif k == "dims" and self.o.arrays:
            b = "char a; %s m%s; char b;" % (self.base(), "".join("[%d]" % self.num(1, 2) for _ in range(self.num(3, 7))))
        elif k == "fnnest" and self.o.funcptr:
            d = self.pick(["int", "char *"])
            for i in range(self.num(2, 7)):
                d = self.pick(["void (*)(%s)", "int (*)(%s, char)", "char *(*)(int, %s)", "int (**)(%s)"]) % d
            b = "char a; void (*f)(%s);" % d
        elif k == "params" and self.o.funcptr:
            ps = [self.pick(["char", "long", "double", "char *", "void *", "unsigned short"]) for _ in range(self.num(1, 4))]
            b = "int (*f)(%s);" % ", ".join(ps[i % len(ps)] for i in range(self.num(8, 40)))
        elif k == "args" and self.o.functions:
            ps = [self.pick(["char", "long", "double", "char *", "void *", "unsigned short"]) for _ in range(self.num(1, 4))]
            nm = self.fresh("fn")
            self.out.append("int %s(%s);" % (nm, ", ".join("%s p%d" % (ps[i % len(ps)], i) for i in range(self.num(8, 40)))))
            self.decls.append(["function", nm])
            return
        elif k == "enum" and self.o.enums:
            n = self.num(6, 300)
            at = self.num(0, n - 1)
            odd = self.pick(["-1", "-200", "255", "40000", "0x7ffffff0", "0xfffffff0u"])
            tag = self.fresh()
            stem = self.fresh("EV")
            if odd.startswith("0xf"):
                at = n - 1       # what follows would not fit
            if odd.startswith("0x7"):
                at = max(at, n - 10)
            self.out.append("enum %s { %s };" % (tag, ", ".join("%s_%d%s" % (stem, i, " = " + odd if i == at else "") for i in range(n))))
            self.enums.append("enum " + tag)
            self.decls.append(["enum", tag])
            return
        elif k == "decls" and self.o.typedefs:
            nm = self.base()
            if nm.startswith("__typeof__"):
                nm = "int"
            stem = self.fresh("T")
            for i in range(self.num(10, 60)):
                self.out.append("typedef %s %s_%d;" % (nm, stem, i))
                nm = "%s_%d" % (stem, i)
                self.decls.append(["typedef", nm])
            self.typedefs.append(nm)
            return
        else:
            b = "char a; %s %sm; char b;" % (self.pointee(), "*" * self.num(4, 12))
        self.out.append("%s { %s };" % (tag, b))
        self.records.append(tag)
        self.embeddable.append(tag)
        self.decls.append(["record", tag])

    def program(self):
        n = self.num(1, self.o.max_decls)
        large = self.num(0, n - 1) if self.o.large and self.chance(9) else None
        for i in range(n):
            if i == large:
                self.large()
            ch = ["rec"] * 5
            if self.o.typedefs:
                ch += ["td"] * 3
            if self.o.enums:
                ch += ["enum"] * 2
            if self.o.functions:
                ch += ["fn"] * 3
            if self.pending:
                ch += ["complete"] * 2
            k = self.pick(ch)
            if k == "rec":
                self.record()
            elif k == "td":
                self.typedef()
            elif k == "enum":
                self.enum()
            elif k == "fn":
                self.function()
            else:
                self.record(self.pick(self.pending))
        while self.pending:
            self.record(self.pending[0])
        return "\n".join(self.out) + "\n"


def programs(o):
    @st.composite
    def build(draw):
        g = Gen(draw, o)
        src = g.program()
        return g, src
    return build()
