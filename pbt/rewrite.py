"""Rewrites of C text that do not change what it declares."""
import random
import re

from .cgen import FIELD_NAMES

TOKEN = re.compile(r'''
  (?P<dir>(?<![^\n])[ \t]*\#(?:[^\\\n]|\\.|\\\n)*)
 |(?P<com>/\*.*?\*/|//(?:[^\\\n]|\\.|\\\n)*)
 |(?P<str>(?:u8|u|U|L)?"(?:[^"\\\n]|\\.)*"|(?:u|U|L)?'(?:[^'\\\n]|\\.)*')
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\.?[0-9](?:[eEpP][+-]|[\w.])*)
 |(?P<op>\.\.\.|<=>|<<=|>>=|->\*|\.\*|->|::|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|\S)
 |(?P<ws>\s+)
''', re.X | re.S)

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long
register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool
__attribute__ __int128 _Static_assert __extension__ packed aligned __WCHAR_TYPE__""".split())
SPEC = {"unsigned", "signed", "long", "short", "int", "char", "double"}
SPELLINGS = [["int", "signed", "signed int"], ["unsigned", "unsigned int"],
             ["short", "short int", "signed short", "signed short int"], ["unsigned short", "unsigned short int"],
             ["long", "long int", "signed long", "signed long int"], ["unsigned long", "unsigned long int"],
             ["long long", "long long int", "signed long long", "signed long long int"],
             ["unsigned long long", "unsigned long long int"], ["char"], ["signed char"], ["unsigned char"],
             ["double"], ["long double"]]
BY_WORDS = {tuple(sorted(s.split())): g for g in SPELLINGS for s in g}

COMMENTS = ["/* x */", "/**/", "/* struct zz { int a; }; */", "// line\n", "//\n", "/** doc 'unbalanced \" */", "///< member doc\n",
            "/* // */", "// /* \n", "/* #define ZZ 1 */", "// joined \\\n still comment\n", "/* \u00e9\u4e2d */", "/*! @brief \"\"\" */",
            "/*\n * several\n * lines\n */", "//!< it's\n"]
SPACES = [" ", "  ", "\t", "\n", "\n\n", " \n\t", "\f", "\v", " \\\n ", "\\\n", "\n\\\n", " \\ \n", " \\\t\n "]
SKIPPED = ["struct zz_broken {", "int zz_skipped;", "#define ZZ_SKIPPED 1", "}", "typedef struct zz zz;", "enum { ZZ_A };"]
DIGRAPHS = {"[": "<:", "]": ":>", "{": "<%", "}": "%>"}
FIELDS = set(FIELD_NAMES)


class Tok:
    __slots__ = ("t", "k", "sp")

    def __init__(self, t, k, sp=True):
        self.t, self.k, self.sp = t, k, sp

    def __repr__(self):
        return self.t


def tokenize(src):
    out, sp = [], False
    for m in TOKEN.finditer(src):
        k = m.lastgroup
        if k in ("ws", "com"):
            sp = True
            continue
        out.append(Tok(m.group().strip() if k == "dir" else m.group(), k, sp))
        sp = False
    return out


def split(toks):
    """top-level declarations (lists of tokens)"""
    out, cur, depth, fn = [], [], 0, False
    for t in toks:
        if t.k == "dir" and depth == 0 and not cur:
            out.append([t])
            continue
        cur.append(t)
        if t.t in "([{":
            if t.t == "{" and depth == 0:
                fn = len(cur) > 1 and cur[-2].t == ")" and not any(x.t == "=" for x in cur)
            depth += 1
        elif t.t in ")]}":
            depth -= 1
            if depth == 0 and t.t == "}" and fn:
                out.append(cur)
                cur = []
        elif t.t == ";" and depth == 0:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def ident(t):
    return t.k == "id" and t.t not in KEYWORDS


def names(decl):
    if decl[0].k == "dir":
        return set(re.findall(r"[A-Za-z_]\w*", decl[0].t)) - FIELDS - KEYWORDS
    return {t.t for t in decl if ident(t) and t.t not in FIELDS}


# ---------------------------------------------------------------- rewrites of token lists
def respell(decls, r, p):
    n = 0
    for d in decls:
        i, depth = 0, 0
        while i < len(d):
            depth += (d[i].t == "{") - (d[i].t == "}")
            if d[i].t not in SPEC:
                i += 1
                continue
            j = i
            while j < len(d) and d[j].t in SPEC:
                j += 1
            words = tuple(sorted(x.t for x in d[i:j]))
            if words in BY_WORDS and r.random() < p:
                new = r.choice(BY_WORDS[words]).split()
                if r.random() < .5:
                    r.shuffle(new)
                quals = []
                if i and d[i - 1].t in ("const", "volatile"):
                    quals = [d[i - 1].t]
                elif depth and r.random() < .3:
                    quals = [r.choice(["const", "volatile"])]
                if quals and r.random() < .5:
                    new.insert(r.randint(0, len(new)), quals[0])
                d[i:j] = [Tok(w, "id") for w in new]
                j = i + len(new)
                if j < len(d):
                    d[j].sp = True
                n += 1
            i = j
    return n


def parens(decls, r, p):
    """int x; -> int (x);"""
    n = 0
    for d in decls:
        if d[0].k == "dir" or d[0].t == "_Static_assert":
            continue
        i = 1
        while i + 1 < len(d):
            prev, t, nxt = d[i - 1], d[i], d[i + 1]
            if ident(t) and nxt.t in (";", "[", "(", "=") and nxt.k == "op" and t.k == "id" and \
                    (prev.t in SPEC or prev.t in ("*", "float", "_Bool", "__int128", "}", "const", "volatile", "void",
                                                  "restrict") or
                     ident(prev) and i >= 1) and r.random() < p and not in_value(d, i):
                if nxt.t in ("=", "(") and enclosing(d, i) is not None:
                    # an enumerator or an argument
                    i += 1
                    continue
                if d[i - 1].t in ("const", "volatile") and i >= 2 and d[i - 2].t == ";":
                    i += 1
                    continue
                k = r.choice([1, 1, 1, 2])
                d[i:i + 1] = [Tok("(", "op")] * k + [Tok(t.t, "id", False)] + [Tok(")", "op", False)] * k
                i += 2 * k
                n += 1
            i += 1
    return n


def in_value(d, i):
    """behind a = of this declaration"""
    depth = 0
    for t in d[:i]:
        depth += (t.t in "([{") - (t.t in ")]}")
        if t.t == "=" and depth == 0:
            return True
    return False


def enclosing(d, i):
    depth = 0
    for t in reversed(d[:i]):
        if t.t in ")]}":
            depth += 1
        elif t.t in "([{":
            if depth == 0:
                return t.t
            depth -= 1
    return None


def repeat(decls, r, p):
    """a declaration that may be repeated is repeated, later or at once"""
    out, n, tail = [], 0, []
    for d in decls:
        out.append(d)
        texts = [t.t for t in d]
        if d[0].k == "dir":
            ok = d[0].t.lstrip("# \t").startswith("define")
        else:
            ok = "{" not in texts and "=" not in texts and "static" not in texts and \
                (texts[0] in ("typedef", "extern") or "(" in texts or len(d) == 3 and texts[0] in ("struct", "union"))
        if ok and r.random() < p:
            n += 1
            copy = [Tok(t.t, t.k, t.sp) for t in d]
            # a macro may be used, and is known, from its first definition on
            if r.random() < .5:
                out.append(copy)
            else:
                tail.append(copy)
        elif "{" in texts and texts[0] in ("struct", "union") and len(d) > 3 and d[1].k == "id" and r.random() < p:
            n += 1
            fw = [Tok(texts[0], "id"), Tok(texts[1], "id"), Tok(";", "op", False)]
            if r.random() < .5:
                out.insert(0, fw)
            else:
                tail.append(fw)
    decls[:] = out + tail
    return n


def reorder(decls, r, p):
    ns = [names(d) for d in decls]
    left = list(range(len(decls)))
    out = []
    while left:
        ready = [i for i in left if not any(j < i and ns[i] & ns[j] for j in left)]
        i = r.choice(ready) if r.random() < max(p, .5) else ready[0]
        out.append(i)
        left.remove(i)
    changed = out != sorted(out)
    decls[:] = [decls[i] for i in out]
    return int(changed)


def macros(decls, r, p):
    """spell parts of the text with macros"""
    defs, n = [], 0
    for d in decls:
        if d[0].k == "dir":
            continue
        for _ in range(4):
            if r.random() > p:
                continue
            end = next((i for i in range(len(d)) if d[i].t == "=" and enclosing(d, i) is None), len(d) - 1)
            if end < 2:
                continue
            i = r.randrange(0, end)
            stop = [j for j in range(i + 1, min(end, i + r.choice([2, 4, 12, 60])) + 1) if balanced(d[i:j])]
            if not stop:
                continue
            j = r.choice(stop)
            if any(t.t.startswith("ZQ_") for t in d[max(i - 1, 0):j]):
                continue
            n += 1
            if r.random() < .6:
                nm = "ZQ_%d" % len(defs)
                defs.append([Tok("#define %s %s" % (nm, " ".join(t.t for t in d[i:j])), "dir")])
                d[i:j] = [Tok(nm, "id")]
                j = i + 1
            else:
                d[j:j] = [Tok(")", "op")]
                d[i:i] = [Tok("ZQ_V", "id"), Tok("(", "op", False)]
                j += 3
                if not any(x[0].t.startswith("#define ZQ_V") for x in defs):
                    defs.append([Tok("#define ZQ_V(...) __VA_ARGS__", "dir")])
            if j < len(d):
                d[j].sp = True
    decls[:0] = defs
    return n


def balanced(run):
    depth = 0
    for t in run:
        if t.k == "dir":
            return False
        depth += (t.t in "([{") - (t.t in ")]}")
        if depth < 0:
            return False
    return depth == 0


def conditional(decls, r, p):
    out, n = [], 0

    def line(s):
        out.append([Tok(s, "dir")])
    for d in decls:
        if r.random() >= p:
            out.append(d)
            continue
        n += 1
        k = r.randrange(6)
        if k == 0:
            line("#if 1")
            out.append(d)
            line("#endif")
        elif k == 1:
            line("#ifdef ZQ_UNDEFINED")
            line(r.choice(SKIPPED))
            line("#else")
            out.append(d)
            line("#endif")
        elif k == 2:
            line("#if 0")
            line(r.choice(SKIPPED))
            line("#endif")
            out.append(d)
        elif k == 3:
            out.append(d)
            line("#ifndef ZQ_UNDEFINED")
            line("#elif 1")
            line(r.choice(SKIPPED))
            line("#endif")
        elif k == 4:
            out.append(d)
            line("#pragma GCC diagnostic ignored \"-Wall\"")
        else:
            out.append([Tok("_Static_assert", "id"), Tok("(1, \"x\")", "str", False), Tok(";", "op")])
            out.append(d)
    decls[:] = out
    return n


TREE = [("order", reorder), ("repeat", repeat), ("respell", respell), ("parens", parens), ("macros", macros),
        ("conditional", conditional)]
# what also keeps the meaning of C++
CPLUSPLUS = ["macros", "conditional", "space", "comments", "splice", "crlf", "digraphs", "no-newline", "bom"]
TEXT = ["space", "comments", "splice", "crlf", "digraphs", "no-newline", "bom"]


def respace_directive(t, r, p, opts):
    m = re.match(r"#[ \t]*define[ \t]+([A-Za-z_]\w*)(\([^)]*\))?", t)
    if not m:
        return t
    rest = tokenize(t[m.end():].replace("\\\n", " "))
    sp = lambda: r.choice([" ", "\t", "  ", " \\\n ", " \\\n\t"] + ([" /* x */ ", " /* \n */ "] if "comments" in opts else []))
    out = r.choice(["#define ", "# define ", "#\tdefine\t", "#  define  "]) + m.group(1) + (m.group(2) or "")
    first = True
    for k in rest:
        if k.sp or first:
            out += sp() if r.random() < p else " "
        out += k.t
        first = False
    if "comments" in opts and r.random() < p:
        out += r.choice([" /* x */", " // y", "\t/* ' */"])
    return out


def render(decls, r, p, opts):
    out = []
    bol = True

    def space(need, inline=False):
        s = ""
        if "comments" in opts and r.random() < p:
            s += r.choice(COMMENTS)
        if "space" in opts and r.random() < p:
            s += r.choice(SPACES)
        if need and s.replace("\\\n", "") == "":
            s = " " + s
        return s
    for d in decls:
        for n, t in enumerate(d):
            if t.k == "dir":
                if not bol:
                    out.append("\n")
                x = t.t
                if ("space" in opts or "comments" in opts) and r.random() < .7:
                    x = respace_directive(x, r, p, opts)
                out.append(x + "\n")
                bol = True
                continue
            x = t.t
            if "splice" in opts and t.k in ("id", "num") and len(x) > 1 and r.random() < p:
                i = r.randint(1, len(x) - 1)
                x = x[:i] + r.choice(["\\\n"] * 3 + ["\\ \n", "\\\t \n"]) + x[i:]
            if "digraphs" in opts and x in DIGRAPHS and r.random() < p:
                x = DIGRAPHS[x]
            need = t.sp or bool(out) and glue(out[-1], x)
            out.append(space(need) + x)
            bol = False
        if not bol and ("space" not in opts or r.random() < .5):
            out.append("\n")
            bol = True
    s = "".join(out)
    s = s.rstrip("\n") + ("" if "no-newline" in opts and not s.rstrip("\n").endswith("\\") else "\n")
    if "crlf" in opts:
        s = s.replace("\n", "\r\n")
    if "bom" in opts:
        s = "\ufeff" + s
    return s


def glue(a, b):
    """must these two stay apart?"""
    a, b = a[-1:], b[:1]
    if a.isalnum() or a in "_.":
        return b.isalnum() or b in "_.\"'"
    return (a + b) not in ("*)", "((", "))", ");", "};", "];", "*(") and not (a in "(){}[];," or b in "(){}[];,")


def rewrite(src, seed, density, opts):
    """(text, applied)"""
    r = random.Random(seed)
    decls = split(tokenize(src))
    applied = []
    for name, f in TREE:
        if name in opts and f(decls, r, density):
            applied.append(name)
    applied += [o for o in TEXT if o in opts]
    return render(decls, r, density, opts), applied
