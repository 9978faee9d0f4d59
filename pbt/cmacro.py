"""Generator of macro sets with their C values.

A macro body is a list of tokens; each token is [text, kind, value].  The value of a
macro is computed here by expanding names to tokens, as the preprocessor does, and
evaluating the result; integer results are cross-checked by the C front end with
_Static_assert in the check."""
import struct

from hypothesis import strategies as st

from .env import HarnessError

NAMES = ["A", "B", "MAX", "MIN", "FLAG", "VALUE", "_X", "__GUARD_H", "lower", "Mixed", "X1", "DEBUG", "VERSION",
         "SIZE", "e5", "x10", "L", "u8", "E", "F", "p1", "U", "OFFSET_L", "name_u", "FF"]
SUFFIX = ["", "", "", "", "u", "U", "l", "L", "ul", "UL", "Lu", "lU", "ll", "LL", "ull", "ULL", "LLU", "uLL"]
FSUFFIX = ["", "", "", "f", "F", "l", "L"]
BINOPS = ["+", "-", "*", "&", "|", "^", "<<"]
UNDEFINED = ["foo", "undeclared_thing", "__FILE__", "__LINE__", "int", "sizeof", "struct", "__attribute__", "return",
             "static", "extern", "NOT_A_MACRO"]
GARBAGE = ["#", "@", "{", "}", "(", ")", "[", "]", ",", ";", "->", "...", "==", "!", "?", ":", "&&", "'", '"', "\\",
           "$", "`", "=", "+", "-", "*", "/", "%", "1", "0x", "1.", "'a'", '"s"', "foo", "do", "while", "if",
           "for", "1e", "0b2", "09", "1_000", "lambda", "None", "True", "import", "in", "print", "os", "##", "<", ">",
           "\t", "é", "exit()", "1j", "0777u", "'''", '"""', "__import__", "L'x'", 'R"x(a)x"', "<%", "%:", "//c", "/*c*/"]

# C text of a piece inside a string literal -> what it stands for
SPIECES = [(c, c) for c in
           "abz AZ019 _+-*/%!?.,;:<>=()[]{}#@&|^~$`" ] + [
    ("'", "'"), ("//", "//"), ("/*", "/*"), ("*/", "*/"), ("# macro", "# macro"), ("%d", "%d"), ("{0}", "{0}"),
    ("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("\\\"", "\""), ("\\'", "'"), ("\\a", "\a"), ("\\b", "\b"),
    ("\\f", "\f"), ("\\v", "\v"), ("\\r", "\r"), ("\\101", "A"), ("\\x41 ", "A "), ("\\x7e!", "~!"), ("\\033[", "\033["),
    ("é", "é"), ("漢", "漢"), ("\\u00e9", "é"), ("\\U0001F600", "\U0001F600"), ("😀", "😀"), ("L", "L"), ("u8", "u8"),
    ("C:\\\\new", "C:\\new"), ("1L", "1L"), ("0x1f", "0x1f"), ("3.5f", "3.5f"), ("NULL", "NULL"), ("A", "A"),
    ("\\0002", "\0002"), ("__FILE__", "__FILE__"),
]
CPIECES = [p for p in SPIECES if len(p[1]) == 1] + [('"', '"'), ("\\0", "\0"), ("\\x41", "A"), ("\\7", "\7"),
                                                     ("\\x7F", "\x7f")]
CPIECES = [p for p in CPIECES if p[0] not in ("é", "漢", "😀", "\\u00e9", "\\U0001F600", "'")]


@st.composite
def int_token(draw, small=False):
    v = draw(st.one_of(st.integers(0, 9), st.integers(0, 300)) if small else
             st.one_of(st.integers(0, 20), st.integers(0, 2 ** 16), st.integers(0, 2 ** 31 - 1),
                       st.integers(0, 2 ** 64 - 1),
                       st.sampled_from([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1])))
    base = draw(st.sampled_from(["d", "d", "d", "x", "x", "X", "o", "b"]))
    t = {"d": "%d", "x": "0x%x", "X": "0X%X", "o": "0%o"}.get(base)
    text = t % v if t else "0b" + bin(v)[2:]
    if base == "x" and draw(st.booleans()):
        text = "0x%08x" % v
    if base == "d" and v >= 2 ** 63:
        suf = draw(st.sampled_from(["u", "UL", "ULL", "uLL"]))
    else:
        suf = draw(st.sampled_from(["", "", "L", "l", "LL"] if small else SUFFIX))
    return [text + suf, "int", v]


@st.composite
def float_token(draw):
    kind = draw(st.sampled_from(["dot", "dot", "exp", "dotexp", "lead", "leadexp", "trail", "trailexp", "hex"]))
    a, b = draw(st.integers(0, 9999)), draw(st.integers(0, 9999))
    e = draw(st.sampled_from(["e", "E"])) + draw(st.sampled_from(["", "+", "-"])) + str(draw(st.one_of(st.integers(0, 30), st.integers(0, 300))))
    if kind == "hex":
        text = "0x%x.%xp%s%d" % (a, b, draw(st.sampled_from(["", "+", "-"])), draw(st.integers(0, 40)))
        v = float.fromhex(text)
    else:
        text = {"dot": "%d.%d" % (a, b), "exp": "%d" % a + e, "dotexp": "%d.%d" % (a, b) + e, "lead": ".%d" % b,
                "leadexp": ".%d" % b + e, "trailexp": "%d." % a + e,
                "trail": "%d." % a}[kind]
        v = float(text)
    suf = draw(st.sampled_from(FSUFFIX))
    return [text + suf, "float", v]


@st.composite
def char_token(draw):
    t, v = draw(st.sampled_from(CPIECES))
    return [draw(st.sampled_from(["", "", "", "L", "u", "U"])) + "'" + t + "'", "char", v]


@st.composite
def string_token(draw, prefix=True):
    ps = draw(st.lists(st.sampled_from(SPIECES), max_size=6))
    pre = draw(st.sampled_from(["", "", "", "", "L", "u8", "u", "U"])) if prefix else ""
    return [pre + '"' + "".join(p[0] for p in ps) + '"', "str", "".join(p[1] for p in ps)]


OP = lambda t: [t, "op", None]  # noqa: E731


@st.composite
def int_expr(draw, names, depth):
    """tokens of an integer expression, small values"""
    if depth <= 0 or draw(st.integers(0, 9)) < 3:
        if names and draw(st.integers(0, 9)) < 4:
            return [[draw(st.sampled_from(names)), "name", None]]
        return [draw(int_token(small=True))]
    k = draw(st.sampled_from(["bin", "bin", "bin", "paren", "neg", "inv"]))
    if k == "paren":
        return [OP("(")] + draw(int_expr(names, depth - 1)) + [OP(")")]
    if k == "neg":
        return [OP("-"), OP("(")] + draw(int_expr(names, depth - 1)) + [OP(")")]
    if k == "inv":
        return [OP("~")] + draw(int_expr(names, 0))
    op = draw(st.sampled_from(BINOPS))
    left = draw(int_expr(names, depth - 1))
    right = [[str(draw(st.integers(0, 4))), "int", None]] if op == "<<" else draw(int_expr(names, depth - 1))
    if op == "<<":
        right[0][2] = int(right[0][0])
    return left + [OP(op)] + right


def expand(tokens, table):
    out = []
    for t in tokens:
        if t[1] == "name":
            out += expand(table[t[0]], table)
        else:
            out.append(t)
    return out


class NoValue(Exception):
    pass


def evaluate(tokens, table, limit=2 ** 31 - 1):
    """value of a fully defined constant expression; NoValue when outside int (overflow is not C's value)"""
    toks = expand(tokens, table)
    kinds = {t[1] for t in toks}
    if kinds <= {"str", "op"} and "str" in kinds:
        return "".join(t[2] for t in toks if t[1] == "str")
    if kinds <= {"char", "op"} and "char" in kinds:
        return [t[2] for t in toks if t[1] == "char"][0]
    if len([t for t in toks if t[1] != "op"]) == 1:
        v = [t[2] for t in toks if t[1] != "op"][0]
        if any(t[0] == "~" for t in toks):
            if v > limit:
                raise NoValue()
            return _ev(toks, limit)
        return -v if sum(t[0] == "-" for t in toks) % 2 else v
    return _ev(toks, limit)


def _ev(toks, limit):
    pos = [0]
    prec = {"|": 1, "^": 2, "&": 3, "<<": 4, "+": 5, "-": 5, "*": 6}

    def unary():
        t = toks[pos[0]]
        pos[0] += 1
        if t[0] == "(" and t[1] == "op":
            v = binary(1)
            if toks[pos[0]][0] != ")":
                raise HarnessError("macro model: unbalanced")
            pos[0] += 1
            return v
        if t[1] == "op":
            v = unary()
            return {"-": lambda: -v, "+": lambda: +v, "~": lambda: ~v}[t[0]]()
        return t[2]

    def chk(v):
        if isinstance(v, int) and not -limit - 1 <= v <= limit:
            raise NoValue()
        return v

    def binary(minp):
        v = chk(unary())
        while pos[0] < len(toks) and toks[pos[0]][0] in prec and prec[toks[pos[0]][0]] >= minp:
            op = toks[pos[0]][0]
            pos[0] += 1
            w = binary(prec[op] + 1)
            if op == "<<" and (v < 0 or not 0 <= w <= 16):
                raise NoValue()
            v = chk({"+": lambda: v + w, "-": lambda: v - w, "*": lambda: v * w, "&": lambda: v & w,
                     "|": lambda: v | w, "^": lambda: v ^ w, "<<": lambda: v << w}[op]())
        return v

    v = binary(1)
    if pos[0] != len(toks):
        raise HarnessError("macro model: trailing tokens")
    return v


def join(draw, toks):
    """text of a token list, spacing drawn"""
    style = draw(st.sampled_from(["tight", "spaced", "spaced", "wild"]))
    out = ""
    prev = None
    for t in toks:
        if prev is None:
            sep = ""
        elif style == "spaced":
            sep = " "
        elif style == "wild":
            sep = draw(st.sampled_from([" ", "  ", "\t", " \\\n  ", " /* c */ "]))
        else:
            sep = "" if (t[0] in "()" or prev[0] in "()") and not (prev[1] == "name" and t[0] == "(") else " "
            if prev[1] == "op" and t[1] == "op" and prev[0] not in "()" and t[0] not in "()":
                sep = " "
            if prev[1] in ("op",) and t[1] != "op" and prev[0] not in "()":
                sep = ""
        out += sep + t[0]
        prev = t
    return out


@st.composite
def macro_sets(draw, max_macros=8, garbage=True):
    """{'lines': [text], 'expect': {name: value}, 'absent': [name], 'names': [...], 'labels': [...]}"""
    n = draw(st.integers(1, max_macros))
    table, ints, nums, strs, values = {}, [], [], [], []
    expect, absent, lines, labels, asserts = {}, [], [], set(), []
    anyname = []
    for i in range(n):
        name = draw(st.sampled_from(NAMES)) + "_%d" % i
        kinds = ["int", "int", "float", "char", "string", "signed", "paren", "expr", "expr", "pexpr", "strings", "empty",
                 "func", "undef"]
        if ints:
            kinds += ["expr"] * 2
        if values:
            kinds += ["alias"] * 3
        if strs:
            kinds += ["strings"] * 2
        if garbage:
            kinds += ["garbage"] * 2
        k = draw(st.sampled_from(kinds))
        text = toks = None
        args = ""
        if k == "int":
            toks = [draw(int_token())]
        elif k == "float":
            toks = [draw(float_token())]
        elif k == "char":
            toks = [draw(char_token())]
        elif k == "string":
            toks = [draw(string_token())]
        elif k == "signed":
            lit = draw(st.one_of(int_token(), float_token()))
            sign = draw(st.sampled_from(["-", "-", "+"]))
            toks = [OP(sign), lit]
            if draw(st.booleans()):
                toks = [OP("(")] + toks + [OP(")")]
        elif k == "paren":
            lit = draw(st.one_of(int_token(), float_token(), char_token(), string_token()))
            d = draw(st.integers(1, 2))
            toks = [OP("(")] * d + [lit] + [OP(")")] * d
        elif k == "alias":
            r = draw(st.sampled_from(values))
            toks = [[r, "name", None]]
            if draw(st.integers(0, 2)) == 0:
                toks = [OP("(")] + toks + [OP(")")]
            elif r in ints and draw(st.integers(0, 3)) == 0:
                toks = [OP("-")] + ([OP("(")] + toks + [OP(")")])
        elif k == "expr":
            toks = draw(int_expr(ints, 2))
        elif k == "pexpr":
            toks = [OP("(")] + draw(int_expr(ints, 3)) + [OP(")")]
        elif k == "strings":
            m = draw(st.integers(2, 4))
            toks = []
            for _ in range(m):
                if strs and draw(st.booleans()):
                    toks.append([draw(st.sampled_from(strs)), "name", None])
                else:
                    toks.append(draw(string_token(prefix=False)))
            if draw(st.integers(0, 3)) == 0:
                toks = [OP("(")] + toks + [OP(")")]
        elif k == "empty":
            text = ""
            expect[name] = True
        elif k == "func":
            params = draw(st.sampled_from([["x"], ["x", "y"], [], ["..."], ["x", "..."], ["a", "b", "c"]]))
            # parameterless ones need no identifier
            args = "(" + draw(st.sampled_from([",", ", "])).join(params) + ")"
            used = [p for p in params if p != "..."] or ["1"]
            text = draw(st.sampled_from(["%s", "(%s)", "((%s) + 1)", "do { f(%s); } while (0)", "%s %s", "{%s}", "#%s",
                                         "(1)", "", "\"lit\"", "42", "foo(%s)", "-(%s)"]))
            text = text.replace("%s", used[0])
            if "#" in text and used[0] == "1":
                text = "1"
            absent.append(name)
        elif k == "undef":
            u = draw(st.sampled_from(UNDEFINED))
            text = draw(st.sampled_from(["%s", "-%s", "%s + 1", "(%s)", "%s(1)", "(1 + %s)", "1 %s", "\"a\" %s",
                                         "%s \"a\"", "((%s)1)", "&%s", "*%s", "~%s", "!%s", "%s.x", "%s->y", "%s[0]",
                                         "(%s) 1", "%s %s"])).replace("%s", u)
            absent.append(name)
        else:
            text = " ".join(draw(st.lists(st.sampled_from(GARBAGE), min_size=1, max_size=6)))
            if text.rstrip().endswith(("\\", "##")):
                text += " x"
            if text.startswith("##"):
                text = "x " + text
            if text.strip().startswith("(") is False and draw(st.integers(0, 9)) == 0:
                args = ""
        if toks is not None:
            table[name] = toks
            try:
                v = evaluate(toks, table)
            except NoValue:
                del table[name]
                toks = [draw(int_token(small=True))]
                table[name] = toks
                v = toks[0][2]
                k = "int"
            expect[name] = v
            text = join(draw, toks)
            values.append(name)
            flat = expand(toks, table)
            if isinstance(v, int) and abs(v) < 2 ** 31 and not any("u" in t[0].lower() for t in flat):
                asserts.append(name)
            if all(t[1] in ("int", "op") for t in flat) and abs(v) < 2 ** 15 and not any(
                    t[1] == "int" and t[0].strip("0123456789abcdefABCDEFxX").strip("lL") for t in flat):
                ints.append(name)
            if all(t[1] == "str" for t in flat) and not any(t[0][0] != '"' for t in flat):
                strs.append(name)
        labels.add("macro:" + k)
        sp = draw(st.sampled_from(["#define ", "#define ", "#define\t", "# define ", "#  define  "]))
        tail = draw(st.sampled_from(["", "", "", "", " ", " /* note */", " // note", "\t/**< doc 'x \" */"]))
        if k == "garbage" and ("'" in text or '"' in text or "//" in text or "\\" in text):
            tail = ""
        if "//c" in text:
            tail = ""
        gap = draw(st.sampled_from([" ", " ", "\t", "   "])) if text else ""
        lines.append(sp + name + args + gap + text + tail)
        anyname.append(name)
    return {"lines": lines, "expect": [[a, _enc(b)] for a, b in expect.items()], "absent": absent, "asserts": asserts,
            "labels": sorted(labels)}


def _enc(v):
    if isinstance(v, float):
        return {"f": v.hex()}
    return v


def dec(v):
    if isinstance(v, dict):
        return float.fromhex(v["f"])
    return v


def same(a, b):
    """equal, and of the same kind (True is only expected for empty macros)"""
    if isinstance(b, bool):
        return a is b
    if isinstance(b, float):
        return isinstance(a, (float, int)) and not isinstance(a, bool) and struct.pack("d", float(a)) == struct.pack("d", b)
    return type(a) is type(b) and a == b
