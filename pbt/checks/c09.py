"""C09: the module imports, and exports what the source declares."""
from .. import cgen, cgraph, cmacro, cvar, env, layout
from ..core import Check
from clang.cindex import CursorKind as CK
from hypothesis import strategies as st

FILES = ["input", "input", "a-b", "a b", "1st", "x+y", "a.b.c", "x(1)", "it's", "\u00e9t\u00e9", "a,b", "class", "50%"]


@st.composite
def cases(draw, tier):
    k = draw(st.sampled_from(["graph", "graph", "graph", "prog", "prog", "all", "chain"]))
    name = draw(st.sampled_from(FILES))
    kinds = draw(st.sampled_from([None, None, "cdefmstu"]))
    if k == "graph":
        g = draw(cgraph.graphs(12 if tier == "thorough" else 8))
        return {"src": "\n".join(g["decls"]) + "\n", "labels": ["graph"] + g["labels"], "name": name, "kinds": kinds}
    if k == "chain":
        g = draw(cgraph.chains(150 if tier == "thorough" else 40))
        return {"src": "\n".join(g["decls"]) + "\n", "labels": g["labels"], "name": name, "kinds": kinds}
    o = cgen.Opts(functions=True, max_decls=12 if tier == "thorough" else 7)
    g, src = draw(cgen.programs(o))
    labels = ["program"] + sorted(g.labels)
    if k == "all":
        v = draw(cvar.units(4))
        src = v["src"] + src
        labels += list(v["labels"])
    if draw(st.booleans()):
        # unnamed enumerations and records at the root are named after the file
        src += draw(st.sampled_from(["enum { Z0 = 1, Z1 };\n", "struct { int a; } zv;\n", "union { int a; char b; } *zp;\n",
                                     "enum { Z2 } ze;\n", "static const struct { int a; } zc = {3};\n"]))
        labels.append("root-unnamed")
    return {"src": src, "labels": labels, "name": name, "kinds": kinds}


def declared(tu):
    """names C gives at file scope, as the module spells them"""
    out = {}

    def enum(c):
        if not layout.is_anon(c):
            out[c.spelling] = "enumeration"
        for v in c.get_children():
            if v.kind == CK.ENUM_CONSTANT_DECL:
                out[v.spelling] = "enumerator"

    def rec(c, top):
        if not layout.is_anon(c):
            out[layout.py_prefix(c) + c.spelling] = "record"
        for d in c.get_children():
            if d.kind in (CK.STRUCT_DECL, CK.UNION_DECL):
                rec(d, False)
            elif d.kind == CK.ENUM_DECL:
                enum(d)

    for c in layout.top_level(tu):
        if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL):
            rec(c, True)
        elif c.kind == CK.ENUM_DECL:
            enum(c)
        elif c.kind == CK.TYPEDEF_DECL:
            out[c.spelling] = "typedef"
        elif c.kind == CK.FUNCTION_DECL:
            out[c.spelling] = "function"
        elif c.kind == CK.VAR_DECL:
            out[c.spelling] = "variable"
    return out


SHAPES = [
    "struct a { struct b *b; }; struct b { struct c *c; }; struct c { struct a a; struct b b; };",
    "typedef struct t T; typedef T *TP; struct t { TP p; T **q; int (*f)(TP, T *); };",
    "struct b; typedef struct b B; struct a { B *x; }; struct b { struct a a[2]; };",
    "struct a { struct b { struct a *up; } b; struct b *q; }; typedef struct b BB; typedef BB *BP;",
    "typedef struct x X; typedef int (*cb)(X *); struct y { cb c; X *x; }; struct x { struct y y; };",
    "union u; struct s { union u *u; }; union u { struct s s; union u *n; int i[3]; };",
    "struct never; struct never *get(void); extern struct never *held;",
    "int f(struct only_here *p);",
    "".join("struct c%d { struct c%d *n; }; " % (i, i + 1) for i in range(200)),
    "typedef struct { int x; } A; typedef A B; typedef B C; struct d { C c; B *b; A a[2]; };",
]


class C09(Check):
    id = "C09"
    rule = ("a unit counts when it declares five or more names and has a pointer cycle, forward reference, by-value "
            "member record, typedef or function; distinct by source text and file name")
    quick, thorough = 3600, 60000
    assumptions = ["records without bit fields; identifiers that are Python keywords or names of the generated module's own "
                   "support code are the listed known findings and are not generated",
                   "unnamed entities have no C name: that they are exported under some defined name is checked"]

    def strategy(self, tier):
        return cases(tier)

    def enumerate(self, tier):
        out = [{"src": s + "\n", "labels": ["shape", "forward"], "name": "input", "kinds": None} for s in SHAPES]
        for f in FILES:
            out.append({"src": "enum { A, B }; struct { int x; } v; typedef struct { int y; } T;\nstruct s { struct { int z; } m; };\n",
                        "labels": ["file-name"], "name": f, "kinds": None})
        return out

    def run(self, case):
        tu = layout.parse(case["src"])
        text = env.generate(case["src"], name=case["name"], kinds=case["kinds"])
        ns = env.load(text)
        exported = ns.get("__all__")
        env.require(isinstance(exported, list), "__all__ is %r", exported)
        env.require(exported == sorted(exported), "__all__ is not sorted: %s", exported)
        env.require(len(set(exported)) == len(exported), "__all__ repeats a name: %s", exported)
        for n in exported:
            env.require(n in ns, "exported name %s is not defined", n)
        want = declared(tu)
        for n, kind in want.items():
            env.require(n in ns, "%s %s is not defined", kind, n)
            env.require(n in exported, "%s %s is not exported", kind, n)
        # `from module import *` is what users do
        layout.walk_unit(ns, tu)
        labels = set(case["labels"]) | {"file:" + case["name"]}
        interesting = {"forward", "by-value", "link-to-later", "self-link", "early-typedef", "function", "forward-ref",
                       "nested-record", "typedef", "typedef-use", "python-name", "file-name", "root-unnamed"}
        return len(want) >= 5 and bool(labels & interesting), labels


CHECK = C09()
