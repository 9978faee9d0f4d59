"""Generator of global variables with initialisers and the value C gives them.

An expectation is [kind, value]: "num" (a number; integers count modulo the width of the
variable's type, because `unsigned x = -1` is kept as written), "str" (the text between
the quotes), "list" (expectations), "zero" (the default of a variable without
initialiser), "any" (only the name must exist)."""
import struct

from hypothesis import strategies as st

from . import cmacro

INT_TYPES = [("char", 8, True), ("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True),
             ("unsigned short", 16, False), ("int", 32, True), ("unsigned int", 32, False), ("unsigned", 32, False),
             ("long", 64, True), ("unsigned long", 64, False), ("long long", 64, True),
             ("unsigned long long", 64, False), ("my_int", 32, True), ("my_ulong", 64, False)]
PLAIN_INTS = [t for t in INT_TYPES if t[1] > 8]
FLOAT_TYPES = ["float", "double", "long double", "my_double"]
PRELUDE = ("typedef int my_int; typedef unsigned long my_ulong; typedef double my_double;\n"
           "enum pre_e { PRE_A = 3, PRE_B, PRE_N = -2 };\n"
           "#define M_FIVE 5\n#define M_HEX 0x1F\n#define M_NEG (-7)\n#define M_EXPR (M_FIVE + 2)\n#define M_ALIAS M_FIVE\n"
           "#define M_OCT 017\n#define M_ADD(a, b) ((a) + (b))\n#define M_CHAR 'q'\n#define M_STR \"mstr\"\n#define M_PI 3.25\n"
           "struct pre_s { int a; char b; };\nint pre_f(int);\n")
PRE_VALUES = {"PRE_A": 3, "PRE_B": 4, "PRE_N": -2, "M_FIVE": 5, "M_HEX": 0x1f, "M_NEG": -7, "M_EXPR": 7, "M_ALIAS": 5,
              "M_OCT": 15}
NAMES = ["x", "value", "_v", "count", "Max", "print", "self", "list_t", "e5", "table", "int_v", "cfg"]
PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6,
        "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
LIM = 2 ** 31


class Out(Exception):
    """not a value of type int"""


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b):
    if op in ("/", "%"):
        if b == 0:
            raise Out()
        q = cdiv(a, b)
        v = q if op == "/" else a - b * q
    elif op in ("<<", ">>"):
        if a < 0 or not 0 <= b < 20:
            raise Out()
        v = a << b if op == "<<" else a >> b
    elif op in ("&&", "||"):
        v = int(bool(a) and bool(b)) if op == "&&" else int(bool(a) or bool(b))
    elif op in ("<", ">", "<=", ">=", "==", "!="):
        v = int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    else:
        v = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if not -LIM <= v < LIM:
        raise Out()
    return v


@st.composite
def int_expr(draw, depth):
    """(text, precedence, value)"""
    if depth <= 0 or draw(st.integers(0, 9)) < 2:
        k = draw(st.sampled_from(["lit", "lit", "lit", "name", "char", "sizeof", "macro"]))
        if k == "lit":
            v = draw(st.integers(0, 40))
            return draw(st.sampled_from(["%d", "%d", "0x%x", "0%o", "%dL"])) % v, 20, v
        if k == "name":
            n = draw(st.sampled_from(sorted(PRE_VALUES)))
            return n, 20, PRE_VALUES[n]
        if k == "char":
            t, v = draw(st.sampled_from([p for p in cmacro.CPIECES if ord(p[1]) < 128]))
            return "'%s'" % t, 20, ord(v)
        if k == "sizeof":
            t, n = draw(st.sampled_from([("int", 4), ("struct pre_s", 8), ("char", 1), ("void *", 8), ("my_ulong", 8)]))
            return "(int)sizeof(%s)" % t, 15, n
        a, b = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        return "M_ADD(%d, %d)" % (a, b), 20, a + b
    k = draw(st.sampled_from(["bin"] * 5 + ["un", "un", "paren", "cond", "cast"]))
    if k == "un":
        t, p, v = draw(int_expr(depth - 1))
        op = draw(st.sampled_from(["-", "+", "~", "!"]))
        if p <= 14 or t[0] == op:
            t = "(%s)" % t
        return op + t, 14, {"-": -v, "+": v, "~": ~v, "!": int(not v)}[op]
    if k == "paren":
        t, p, v = draw(int_expr(depth - 1))
        return "(%s)" % t, 20, v
    if k == "cond":
        c, cp, cv = draw(int_expr(depth - 1))
        a, ap, av = draw(int_expr(depth - 1))
        b, bp, bv = draw(int_expr(depth - 1))
        return "%s ? %s : (%s)" % (c if cp > 0 else "(%s)" % c, a, b), 0, av if cv else bv
    if k == "cast":
        t, p, v = draw(int_expr(depth - 1))
        return "(%s)%s" % (draw(st.sampled_from(["int", "long", "my_int"])), t if p >= 15 else "(%s)" % t), 14, v
    op = draw(st.sampled_from(sorted(PREC)))
    a, ap, av = draw(int_expr(depth - 1))
    b, bp, bv = draw(int_expr(depth - 1))
    p = PREC[op]
    if ap < p:
        a = "(%s)" % a
    if bp <= p:
        b = "(%s)" % b
    return "%s %s %s" % (a, op, b), p, binop(op, av, bv)


# what only the compiler can tell; the first ones also in C++
CALLS = [("__builtin_strlen(\"abcd\")", 4), ("__builtin_popcount(0xff)", 8), ("__builtin_ffs(12)", 3), ("-__builtin_ffs(8)", -4),
         ("__builtin_expect(6, 1)", 6), ("(int)__builtin_strlen(\"x\") + 2", 3), ("__builtin_bswap16(0x100)", 1), ("__builtin_clz(1)", 31),
         ("__builtin_offsetof(struct pre_s, b)", 4), ("sizeof(struct pre_s)", 8), ("sizeof(int[5])", 20), ("sizeof M_STR", 5),
         ("__alignof__(int)", 4), ("__builtin_constant_p(3)", 1), ("1 ? 5 : 6", 5), ("!7", 0), ("!0", 1), ("__LINE__ * 0 + 7", 7),
         ("(short)65537", 1), ("(int)3.9", 3), ("'a' + 1", 98), ("(unsigned char)300", 44), ("-(int)sizeof(char)", -1)]
C_CALLS = [("__builtin_choose_expr(1, 5, 6)", 5), ("__builtin_types_compatible_p(int, long)", 0), ("_Generic(1, int: 7, default: 8)", 7),
           ("_Generic(1.0f, int: 7, float: 9)", 9), ("_Alignof(short)", 2)]
FLOAT_CALLS = [("__builtin_inf()", "inf"), ("-__builtin_inff()", "-inf"), ("__builtin_huge_val()", "inf"), ("__builtin_nan(\"\")", "nan"),
               ("-__builtin_nanf(\"\")", "nan"), ("__builtin_fabs(-1.5)", 1.5), ("1e999", "inf"), ("-1e999", "-inf"), ("1 ? 2.5 : 1", 2.5),
               ("(double)3", 3.0), ("(float)0.5", 0.5), ("__builtin_copysign(2.0, -1.0)", -2.0)]


@st.composite
def int_init(draw, width, signed, char, labels):
    """(text, expectation, value or None for a static assert)"""
    lo, hi = (-(1 << width - 1), (1 << width - 1) - 1) if signed else (0, (1 << width) - 1)
    k = draw(st.sampled_from(["lit"] * 5 + ["neg"] * 2 + ["expr"] * 5 + ["name", "call"] + (["char"] * 4 if char else ["char"])))
    if k == "char":
        labels.add("init:char")
        t, v = draw(st.sampled_from(cmacro.CPIECES))
        if char and t != "'" and draw(st.integers(0, 5)) == 0:
            return "M_CHAR", ["str", "q"], None
        if char:
            return "'%s'" % t, ["char", t, ord(v)], None
        return "'%s'" % t, ["num", ord(v), width], ord(v)
    if k == "call":
        t, v = draw(st.sampled_from(CALLS if "lang:c++" in labels else CALLS + C_CALLS))
        if lo <= v <= hi:
            labels.add("init:call")
            return t, ["num", v, width], None
        k = "lit"
    if k == "expr":
        for _ in range(4):
            try:
                t, p, v = draw(int_expr(2))
            except Out:
                continue
            if lo <= v <= hi:
                labels.add("init:expression")
                if char and t[0] == "'" and p == 20:
                    return t, ["char", t[1:-1], v], v
                return t, ["num", v, width], v
        k = "lit"
    if k == "name":
        n = draw(st.sampled_from(sorted(PRE_VALUES)))
        if lo <= PRE_VALUES[n] <= hi:
            labels.add("init:name")
            return n, ["num", PRE_VALUES[n], width], PRE_VALUES[n]
        k = "lit"
    if k == "neg":
        m = min(abs(lo) if signed else 5, 2 ** 63 - 1)
        v = draw(st.one_of(st.integers(0, min(m, 300)), st.integers(0, m)))
        base = draw(st.sampled_from(["%d", "%d", "0x%x", "0%o", "0X%X"]))
        # an unsuffixed hexadecimal or octal literal may be unsigned
        suf = "" if v < 2 ** 31 else "L"
        labels.add("init:negative")
        return draw(st.sampled_from(["-", "- "])) + base % v + suf, ["num", -v, width], None
    labels.add("init:literal")
    v = draw(st.one_of(st.integers(0, min(hi, 300)), st.integers(0, hi), st.just(hi)))
    base = draw(st.sampled_from(["%d", "%d", "%d", "0x%x", "0X%X", "0%o", "0b"]))
    text = "0b" + bin(v)[2:] if base == "0b" else base % v
    suf = draw(st.sampled_from(["u", "UL", "ULL", "uLL"] if v >= 2 ** 63 else cmacro.SUFFIX))
    return text + suf, ["num", v, width], None


@st.composite
def float_init(draw, labels):
    k = draw(st.sampled_from(["lit"] * 4 + ["sign"] * 3 + ["int", "paren", "expr", "name", "call"]))
    labels.add("init:float-" + k)
    if k == "call":
        t, v = draw(st.sampled_from(FLOAT_CALLS))
        return t, ["flt", float(v).hex()]
    if k == "int":
        v = draw(st.integers(-50, 5000))
        return str(v), ["flt", float(v).hex()]
    t, _, v = draw(cmacro.float_token())
    if k == "lit":
        return t, ["flt", v.hex()]
    if k == "sign":
        s = draw(st.sampled_from(["-", "+", "- "]))
        return s + t, ["flt", (-v if s[0] == "-" else v).hex()]
    if k == "paren":
        n = draw(st.integers(0, 2))
        return ["(%s)", "-(%s)", "((%s))"][n] % t, ["flt", (-v if n == 1 else v).hex()]
    if k == "name":
        n = draw(st.booleans())
        return ("-M_PI" if n else "M_PI"), ["flt", (-3.25 if n else 3.25).hex()]
    a, b = draw(st.integers(0, 64)) / 8, 2.0 ** draw(st.integers(-3, 3))
    op = draw(st.sampled_from("+-*/"))
    v = {"+": a + b, "-": a - b, "*": a * b, "/": a / b}[op]
    return "%r %s %r" % (a, op, b), ["flt", v.hex()]


PLAIN = [p for p in cmacro.SPIECES if len(p[0]) == 1 and ord(p[0]) < 128 or p[0].isalnum() and p[0].isascii()]


@st.composite
def string_init(draw, labels, prefix=True):
    k = draw(st.sampled_from(["one", "one", "one", "adjacent", "macro"]))
    labels.add("init:string-" + k)
    if k == "macro":
        t = draw(st.sampled_from([("M_STR", "mstr"), ('M_STR "x"', "mstrx"), ('"a" M_STR', "amstr")]))
        return t[0], ["str", t[1]]
    if k == "adjacent":
        parts = draw(st.lists(st.lists(st.sampled_from(PLAIN), max_size=4), min_size=2, max_size=3))
        return " ".join('"%s"' % "".join(p[0] for p in x) for x in parts), \
            ["str", "".join(p[0] for x in parts for p in x)]
    ps = more(draw, draw(st.lists(st.sampled_from(cmacro.SPIECES), max_size=6)) or [("a", "a")], 1030)
    raw = "".join(p[0] for p in ps)
    pre = draw(st.sampled_from(["", "", "", "u8"])) if prefix else ""
    return '%s"%s"' % (pre, raw), ["str", raw]


def more(draw, els, most=130):
    """sometimes many elements, from the few that were drawn"""
    if draw(st.integers(0, 9)) == 9:
        n = draw(st.sampled_from([x for x in (8, 9, 11, 12, 16, 17, 21, 33, 40, 65) if x < most] + [most]))
        els = (els * (n // len(els) + 1))[:n]
    return els


@st.composite
def variable(draw, name, labels):
    """(declaration text, expectation, (expr text, value) or None, named type or None)"""
    k = draw(st.sampled_from(["int"] * 6 + ["float"] * 3 + ["string"] * 2 + ["chararray", "intarray", "intarray", "floatarray",
                                            "array2d", "strarray", "enum", "none", "none", "other", "bool", "multi"]))
    labels.add("var:" + k)
    q = draw(st.sampled_from(["", "", "", "static ", "const ", "volatile ", "static const ", "extern "]))
    sp = draw(st.sampled_from([" = ", "=", " =\n  ", " = /* c */ "]))
    if q == "extern " and k in ("none", "other"):
        q = ""
    if k == "int":
        t, w, s = draw(st.sampled_from(INT_TYPES))
        text, exp, val = draw(int_init(w, s, t in ("char", "unsigned char"), labels))
        return "%s%s %s%s%s;" % (q, t, name, sp, text), exp, (text, val) if val is not None else None
    if k == "bool":
        v = draw(st.sampled_from([0, 1]))
        return "%s_Bool %s%s%d;" % (q, name, sp, v), ["num", v, 8], None
    if k == "float":
        t = draw(st.sampled_from(FLOAT_TYPES))
        text, exp = draw(float_init(labels))
        return "%s%s %s%s%s;" % (q, t, name, sp, text), exp, None
    if k == "string":
        text, exp = draw(string_init(labels))
        t = draw(st.sampled_from(["char *", "const char *", "const char *const "]))
        return "%s%s%s%s%s;" % (q.replace("const ", "").replace("volatile ", ""), t, name, sp, text), exp, None
    if k == "chararray":
        if draw(st.booleans()):
            text, exp = draw(string_init(labels))
            n = draw(st.sampled_from(["", "", "100"]))
            t = draw(st.sampled_from(["char", "unsigned char", "const char"]))
            return "%s %s[%s]%s%s;" % (t, name, n, sp, text), exp, None
        t, s = draw(st.sampled_from([("char", True), ("unsigned char", False)]))
        els = more(draw, draw(st.lists(int_init(8, s, True, labels), min_size=1, max_size=4)))
        return "%s%s %s[]%s{%s};" % (q, t, name, sp, ", ".join(e[0] for e in els)), ["list", [e[1] for e in els]], None
    if k == "intarray":
        t, w, s = draw(st.sampled_from(PLAIN_INTS + [("signed char", 8, True)]))
        els = more(draw, draw(st.lists(int_init(w, s, False, labels), min_size=1, max_size=6)))
        n = draw(st.sampled_from(["", "", str(len(els) + draw(st.integers(0, 3)))]))
        tail = draw(st.sampled_from(["", "", ","]))
        return "%s%s %s[%s]%s{%s%s};" % (q, t, name, n, sp, ", ".join(e[0] for e in els), tail), \
            ["list", [e[1] for e in els]], None
    if k == "floatarray":
        t = draw(st.sampled_from(FLOAT_TYPES))
        els = more(draw, draw(st.lists(float_init(labels), min_size=1, max_size=5)))
        return "%s%s %s[%d]%s{%s};" % (q, t, name, len(els), sp, ", ".join(e[0] for e in els)), \
            ["list", [e[1] for e in els]], None
    if k == "array2d":
        n = draw(st.integers(1, 3))
        m = draw(st.integers(1, 3))
        if draw(st.booleans()):
            t, w, s = draw(st.sampled_from(PLAIN_INTS))
            el = int_init(w, s, False, labels)
        else:
            t = "double"
            el = float_init(labels)
        rows = [more(draw, [draw(el) for _ in range(m)], 12) for _ in range(n)]
        m = max(map(len, rows))
        rows = more(draw, [(r * m)[:m] for r in rows], 12)
        n = len(rows)
        return "%s%s %s[%d][%d]%s{%s};" % (q, t, name, n, m, sp, ", ".join(
            "{%s}" % ", ".join(e[0] for e in r) for r in rows)), \
            ["list", [["list", [e[1] for e in r]] for r in rows]], None
    if k == "strarray":
        els = more(draw, draw(st.lists(string_init(labels, False), min_size=1, max_size=4)))
        return "%schar *%s[]%s{%s};" % (q, name, sp, ", ".join(e[0] for e in els)), ["list", [e[1] for e in els]], None
    if k == "enum":
        n = draw(st.sampled_from(["PRE_A", "PRE_B", "PRE_N"]))
        t = draw(st.sampled_from(["%s", "%s", "(%s)", "(enum pre_e)%s"]))
        return "%senum pre_e %s%s%s;" % (q, name, sp, t % n), ["num", PRE_VALUES[n], 32], None
    if k == "none":
        t = draw(st.sampled_from(["int %s", "unsigned char %s", "char %s", "double %s", "float %s", "long double %s",
                                  "unsigned long %s", "_Bool %s", "int %s[3]", "char %s[8]", "double %s[2][2]",
                                  "char *%s", "enum pre_e %s", "my_double %s", "my_int %s", "short %s[1]"]))
        if draw(st.integers(0, 3)) == 0 and t != "char *%s":
            # a tentative or extern declaration before the definition
            return "extern %s;\n%s;" % (t % name, t % name), ["zero", t], None
        return q + t % name + ";", ["zero", t], None
    if k == "multi":
        v = draw(st.integers(-5, 900))
        w = draw(st.integers(-5, 900))
        text = "extern int %s;\n" % name if draw(st.booleans()) else ""
        order = draw(st.booleans())
        a, b = "%s = %d" % (name, v), "%s_2 = %d" % (name, w)
        return text + "int %s, *%s_3;" % (", ".join([a, b] if order else [b, a]), name), \
            ["multi", {name: v, name + "_2": w}], None
    t = draw(st.sampled_from(OTHER))
    return q.replace("const ", "").replace("volatile ", "") + t.replace("%s", name) + ";", ["any"], None


# declarations whose value python cannot hold: they must not break the module
OTHER = ["struct pre_s %s", "struct pre_s %s = { 1, 'x' }", "struct pre_s %s[2]", "struct pre_s *%s", "int *%s",
         "int *%s = 0", "int *%s = (int *)0", "void *%s", "void *%s = 0", "int (*%s)(int)", "int (*%s)(int) = pre_f",
         "int (*%s[2])(int) = { pre_f, 0 }", "int %s_a; int *%s = &%s_a", "int %s_b[2]; int *%s = %s_b + 1",
         "char %s_c[2]; char *%s = &%s_c[1]", "char *%s = (char *)0", "char *%s = \"abc\" + 1", "const struct pre_s %s = { .b = 1 }",
         "__WCHAR_TYPE__ %s[] = L\"wide\"", "__WCHAR_TYPE__ *%s = L\"wide\"", "unsigned short %s[] = u\"ab\"",
         "union { int a; float b; } %s", "struct { int a; } %s", "enum { %s_A, %s_B } %s = %s_B", "float *%s", "long **%s",
         "struct pre_s (*%s)[2]", "void *%s = (void *)pre_f", "double %s = 1e300 * 1e300", "__int128 %s = 5",
         "struct pre_s %s[2] = { { 1, 2 }, { 3 } }", "struct %s_t; extern struct %s_t %s; struct %s_t { int a; }"]


def separated(draw, text, digits="0123456789"):
    """the digits of a literal separated as C++14 and C23 allow"""
    out = text[0]
    for a, b in zip(text, text[1:]):
        if a in digits and b in digits and draw(st.integers(0, 3)) == 0:
            out += "'"
        out += b
    return out


CXX_PRELUDE = "enum class pre_k { A = 2, B = 7 };\nenum pre_u : unsigned char { PRE_U = 200 };\nnamespace pre_ns { const int six = 6; }\n"\
    "constexpr int pre_sq(int a) { return a * a; }\nstruct pre_c { int a; constexpr int get() const { return a + 1; } };\n"


@st.composite
def cxx_variable(draw, name, labels):
    k = draw(st.sampled_from(["int"] * 6 + ["char", "char", "bool", "bool", "float", "float", "string", "raw", "intarray", "intarray",
                              "boolarray", "chararray", "scoped", "null", "ref", "auto", "none", "strarray", "separated",
                              "separated", "floatsep"]))
    labels.add("c++:" + k)
    q = draw(st.sampled_from(["", "", "static ", "const ", "static const ", "constexpr ", "inline ", "inline constexpr "]))
    wrap = draw(st.sampled_from([" = %s", " = %s", "{%s}", "(%s)", " = {%s}", " = (%s)"]))
    if draw(st.integers(0, 5)) == 0:
        q = "namespace ns_%s { " % name + q

    def dec(t, rest):
        return q + t + " " + name + rest + ("; }" if q.startswith("namespace") else ";")

    if k == "int":
        t, w, s = draw(st.sampled_from(PLAIN_INTS + [("signed char", 8, True)]))
        text, exp, val = draw(int_init(w, s, False, labels).filter(lambda x: s or x[1][1] >= 0))
        return dec(t, wrap % text), exp, (text, val) if val is not None else None
    if k == "separated":
        v = draw(st.one_of(st.integers(0, 9999), st.integers(10 ** 6, 2 ** 31 - 1)))
        base, digits = draw(st.sampled_from([("%d", "0123456789"), ("0x%x", "0123456789abcdef"), ("0%o", "01234567")]))
        text = base % v
        head = 2 if base == "0x%x" else 0
        text = text[:head] + separated(draw, text[head:], digits) + draw(st.sampled_from(["", "", "u", "L", "ull"]))
        return dec("long", wrap % text), ["num", v, 64], None
    if k == "floatsep":
        a, b, e = draw(st.integers(0, 99999)), draw(st.integers(1, 9999)), draw(st.sampled_from(["", "", "e3", "E-2"]))
        n = draw(st.sampled_from(["%d.%d" % (a, b)] * 3 + [".%d" % b]))
        text = separated(draw, n) + e
        return dec("double", wrap % text), ["flt", float(n + e).hex()], None
    if k == "char":
        t, v = draw(st.sampled_from([p for p in cmacro.CPIECES if ord(p[1]) < 128]))
        pre = draw(st.sampled_from(["", "", "u8"]))
        return dec(draw(st.sampled_from(["char", "unsigned char"])), wrap % ("%s'%s'" % (pre, t))), ["char", t, ord(v)], None
    if k == "bool":
        text, v = draw(st.sampled_from([("true", 1), ("false", 0), ("!true", 0), ("true && false", 0), ("1 > 2", 0),
                                        ("!false", 1), ("PRE_A == 3", 1), ("(true)", 1)]))
        return dec("bool", wrap % text), ["num", v, 8], None
    if k == "float":
        text, exp = draw(float_init(labels))
        return dec(draw(st.sampled_from(["double", "long double", "my_double"])), wrap % text), exp, None
    if k in ("string", "raw"):
        if k == "string":
            text, exp = draw(string_init(labels, False))
        else:
            raw = draw(st.text("abc \\n'()%{}\"", max_size=8).filter(lambda x: ')"' not in x))
            d = draw(st.sampled_from(["", "", "zq", "-"]))
            text, exp = 'R"%s(%s)%s"' % (d, raw, d), ["str", raw]
        q = q.replace("const ", "")
        return dec("const char *", (" = " + text)), exp, None
    if k == "intarray":
        t, w, s = draw(st.sampled_from(PLAIN_INTS + [("signed char", 8, True)]))
        els = draw(st.lists(int_init(w, s, False, labels).filter(lambda x: s or x[1][1] >= 0), min_size=1, max_size=6))
        n = draw(st.sampled_from(["", "", str(len(els) + draw(st.integers(0, 3)))]))
        eq = draw(st.sampled_from([" = ", " "]))
        return dec(t, "[%s]%s{%s}" % (n, eq, ", ".join(e[0] for e in els))), ["list", [e[1] for e in els]], None
    if k == "boolarray":
        els = draw(st.lists(st.sampled_from([("true", 1), ("false", 0), ("!true", 0), ("1 > 2", 0)]), min_size=1, max_size=4))
        t = draw(st.sampled_from(["bool", "int", "long"]))
        return dec(t, "[] = {%s}" % ", ".join(e[0] for e in els)), ["list", [["num", e[1], 8] for e in els]], None
    if k == "chararray":
        els = draw(st.lists(st.sampled_from([p for p in cmacro.CPIECES if ord(p[1]) < 128]), min_size=1, max_size=4))
        t = draw(st.sampled_from(["char", "unsigned char", "int", "short"]))
        return dec(t, "[] = {%s}" % ", ".join("'%s'" % e[0] for e in els)), \
            ["list", [["char", e[0], ord(e[1])] if "char" in t else ["num", ord(e[1]), 16] for e in els]], None
    if k == "strarray":
        els = draw(st.lists(string_init(labels, False), min_size=1, max_size=4))
        q = q.replace("const ", "")
        return dec("const char *", "[] = {%s}" % ", ".join(e[0] for e in els)), ["list", [e[1] for e in els]], None
    if k == "scoped":
        t, n, v, w = draw(st.sampled_from([("pre_k", "pre_k::A", 2, 32), ("pre_k", "pre_k::B", 7, 32), ("enum pre_e", "PRE_B", 4, 32),
                                           ("pre_e", "::PRE_N", -2, 32), ("pre_u", "PRE_U", 200, 8),
                                           ("int", "pre_ns::six", 6, 32), ("int", "(int)pre_k::B", 7, 32),
                                           ("int", "static_cast<int>(4.7)", 4, 32), ("long", "int(9)", 9, 64), ("int", "pre_sq(5)", 25, 32),
                                           ("long", "pre_sq(-3) + 1L", 10, 64), ("int", "pre_c{6}.get()", 7, 32),
                                           ("int", "pre_sq(pre_sq(2))", 16, 32), ("int", "int{8}", 8, 32)]))
        return dec(t, wrap % n), ["num", v, w], None
    if k == "auto":
        text, exp = draw(st.sampled_from([("5", ["num", 5, 32]), ("-7L", ["num", -7, 64]), ("1.5", ["flt", (1.5).hex()]),
                                          ("1 + 2", ["num", 3, 32]), ("true", ["num", 1, 8]), ("0x1Fu", ["num", 31, 32])]))
        return dec("auto", " = " + text), exp, None
    q = q.replace("constexpr ", "").replace("const ", "")
    if k == "null":
        return dec(draw(st.sampled_from(["int *", "char *", "void *", "struct pre_s *", "double **"])), wrap % "nullptr"), ["any"], None
    if k == "ref":
        return "int %s_r = 3; int &%s = %s_r;" % (name, name, name), ["any"], None
    t = draw(st.sampled_from(["int", "unsigned char", "bool", "double", "my_ulong", "pre_k", "float"]))
    return dec(t, draw(st.sampled_from(["", "{}", "[3]"]))), ["any"], None


@st.composite
def cxx_units(draw, max_vars=8):
    labels = {"lang:c++"}
    decls, expect, asserts = [], {}, []
    for i in range(draw(st.integers(1, max_vars))):
        name = draw(st.sampled_from(NAMES)) + "_%d" % i
        text, exp, a = draw(cxx_variable(name, labels))
        decls.append(text)
        expect[name] = exp
        if a is not None:
            asserts.append([a[0], a[1]])
    return {"src": PRELUDE + CXX_PRELUDE + "\n".join(decls) + "\n", "expect": sorted(expect.items()), "asserts": asserts,
            "labels": sorted(labels), "lang": "c++"}


@st.composite
def units(draw, max_vars=8):
    labels = set()
    decls, expect, asserts = [], {}, []
    for i in range(draw(st.integers(1, max_vars))):
        name = draw(st.sampled_from(NAMES)) + "_%d" % i
        text, exp, a = draw(variable(name, labels))
        decls.append(text)
        if exp[0] == "multi":
            for n, v in exp[1].items():
                expect[n] = ["num", v, 32]
        else:
            expect[name] = exp
        if a is not None:
            asserts.append([a[0], a[1]])
    return {"src": PRELUDE + "\n".join(decls) + "\n", "expect": sorted(expect.items()), "asserts": asserts,
            "labels": sorted(labels)}


def as_float(v, f32):
    return struct.unpack("f", struct.pack("f", v))[0] if f32 else v


def matches(got, exp):
    k = exp[0]
    if k == "any":
        return True
    if k == "str":
        return isinstance(got, str) and got == exp[1]
    if k == "char":
        # kept as the text of the literal, or as the character
        return got == exp[1] or type(got) is int and got == exp[2] or isinstance(got, str) and got == chr(exp[2])
    if k == "num":
        return isinstance(got, int) and not isinstance(got, bool) and (got - exp[1]) % (1 << exp[2]) == 0 \
            and (got == exp[1] or abs(got) <= 1 << exp[2])
    if k == "flt":
        v = float.fromhex(exp[1])
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return False
        if got == v or v != v and got != got:
            return True
        try:
            return got == struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return False
    if k == "list":
        return isinstance(got, list) and len(got) == len(exp[1]) and all(matches(g, e) for g, e in zip(got, exp[1]))
    if k == "zero":
        if "[" in exp[1]:
            return got == []
        if "*" in exp[1]:
            return got is None
        if "double" in exp[1] or "float" in exp[1]:
            return got == 0 and (type(got) is float or exp[1].startswith(("my_", "long")) and type(got) is int)
        return got == 0 and type(got) is int or got == "\x00" and ("char" in exp[1] or "_Bool" in exp[1])
    return False
