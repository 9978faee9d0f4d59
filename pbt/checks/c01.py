"""C01: record and type layout on the host."""
from .. import cgen, env, layout
from ..core import Check
from hypothesis import strategies as st

INTERESTING = {"nested-record", "array", "array2d", "pointer", "anonymous-member", "anonymous-named-member",
               "record-defined-in-member", "enum-defined-in-member", "packed", "aligned", "union",
               "function-pointer", "flexible-array", "forward-ref", "typedef-use", "enum-member",
               "array-typedef-member", "function-typedef-member"}

# shapes worth having in every run, beyond what is drawn
SHAPES = [
    "struct s { char a; short b; char c; int d; char e; long f; char g; };",
    "struct s { char c; double d; };\nunion u { char a[5]; int b; struct s s; } __attribute__((aligned(16)));",
    "struct a; struct b { struct a *p; struct b *q; }; struct a { struct b b; struct a *n[3]; };",
    "struct __attribute__((packed)) p { char a; long long b; short c; };\nstruct q { char x; struct p p[3]; int y; };",
    "struct n { int a; union { int b; struct { char c; short d; }; float f; }; struct { int x; } y[2]; };",
    "typedef struct { int a; char b; } T; typedef T A[3]; struct s { char c; A a; T *p; };",
    "typedef struct node node_t; struct node { node_t *next; struct node *prev; int (*cmp)(node_t *, node_t *); };",
    "struct e {}; struct f { struct e e; int a; }; union g {};",
    "struct fl { int n; char data[]; }; struct fz { short n; int data[0]; };",
    "struct o { int before; struct inner { short q; char r; } in; struct inner *p; }; struct inner later;",
    "enum E { A = -1, B }; struct s { enum E e; enum { C, D } f; enum E g[2]; };",
    "typedef unsigned char uint8_t; typedef long long int64_t; typedef unsigned short uint16_t;"
    "struct s { uint8_t a; int64_t b; uint16_t c; };",
    "typedef int (*cb)(void *, const char *, ...); struct ops { cb a; void (*b)(void); cb c[2]; };",
    "struct a1 { long double l; __int128 i; char c; };",
    "struct big { char a[1000]; int b[10][20][3]; };",
    "struct al { char a; int b __attribute__((aligned(16))); char c; };",
    "#pragma pack(push, 2)\nstruct pk { char a; int b; double c; char d; };\n#pragma pack(pop)\n"
    "struct np { char a; int b; };",
]


class C01(Check):
    id = "C01"
    rule = ("a generated C unit counts when it defines at least one record with two or more members and uses one of: "
            "nesting, arrays, pointers, unions, anonymous members, packing or alignment attributes, forward "
            "references, typedef or enum members; distinct by source text")
    quick, thorough = 4000, 60000
    assumptions = ["libclang's own size, alignment and offset queries are the reference for the C ABI",
                   "bit fields are C04's domain; GNU vector and _Complex types and VLAs are not generated"]
    opts = cgen.Opts(big_arrays=True)
    flags = ()
    target = None
    ptr = 8

    def strategy(self, tier):
        o = self.opts
        if tier == "thorough":
            o = cgen.dataclasses.replace(o, max_decls=12, max_fields=9, depth=3)
        return cgen.programs(o).map(lambda x: {"src": x[1], "labels": sorted(x[0].labels)})

    def enumerate(self, tier):
        return [{"src": s, "labels": ["shape", "nested-record"]} for s in SHAPES]

    def run(self, case):
        tu = layout.parse(case["src"], self.flags)
        ns = env.load(env.generate(case["src"]))
        w = layout.walk_unit(ns, tu, self.ptr)
        labels = list(case["labels"])
        if w.padded:
            labels.append("padding")
        return w.records >= 1 and w.fields >= 2 and bool(INTERESTING & set(labels)), labels


CHECK = C01()
