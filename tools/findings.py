#!/opt/venv/bin/python
"""Writes known-findings.json (hand-maintained list; never touched by a check)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []


def fixed(id, prop, commit, what, case):
    OUT.append(dict(id=id, property=prop, status="fixed", commit=commit,
                    what=what, line="fixed: property=%s %s %s" % (prop, commit, what), case=case))


def known(id, prop, what, case):
    OUT.append(dict(id=id, property=prop, status="known", what=what, case=case))


def c01(src):
    return {"src": src, "labels": []}


def c02(src, target=None, flags=(), ptr=4):
    return {"src": src, "labels": [], "how": "-t" if target else "abi", "flags": list(flags), "target": target,
            "ptr": ptr}


fixed("F01", "C01", "e112d62", "a union whose size is padded beyond its largest member was too small",
      c01("union u { char a[5]; int b; };"))
fixed("F02", "C01", "cfe6ffa", "a member whose type name starts with __ broke the module (name mangling)",
      c01("enum __e { A }; struct s { char c; enum __e b[3]; };"))
fixed("F03", "C01", "8537a46", "an unnamed enum used as member type crashed the translation",
      c01("struct s { int a; enum { X, Y } e; };"))

fixed("F04", "C02", "502c684", "function pointers had the host's pointer size for another target",
      c02("struct s { char a; int (*f)(int); char b; };", target="i386-linux"))
fixed("F05", "C02", "0290489", "-m32 left host-sized pointers in records",
      c02("struct s { char a; int *p; char b; };", flags=["-m32"]))


def c07(lines, expect=(), absent=()):
    return {"lines": list(lines), "expect": [[k, {"f": v.hex()} if isinstance(v, float) else v] for k, v in expect],
            "absent": list(absent), "asserts": [k for k, v in expect if isinstance(v, int) and abs(v) < 2 ** 31
                                                and v is not True], "labels": [], "body": "",
            "pos": 0, "kinds": "m", "where": "file"}


fixed("F06", "C07", "0e0494b", "octal, hex float and suffixed numbers in macros gave no module or a wrong value",
      c07(["#define A 010", "#define B 0x10UL", "#define C 1.5L", "#define D 10ull"],
          [("A", 8), ("B", 16), ("C", 1.5), ("D", 10)]))
fixed("F07", "C07", "0d92988", "a macro body that names a macro was replaced by text, also inside other names and for "
      "function-like macros", c07(["#define A 1", "#define B(x) 2", "#define C B", "#define D A"],
                                  [("A", 1), ("D", 1)], ["B", "C"]))
fixed("F08", "C07", "3b66d07", "a macro that negates an unknown identifier crashed the translation",
      c07(["#define A -EINVAL", "#define B 2"], [("B", 2)], ["A"]))
fixed("F09", "C07", "6c57660", "a macro that starts with a parenthesis lost the rest of its expression",
      c07(["#define A (1) + 2"], [("A", 3)]))
fixed("F10", "C07", "2bd0616", "a macro that is not a python value made the module unimportable",
      c07(["#define A ;", "#define B 2"], [("B", 2)]))
fixed("F11", "C07", "02f1d49", "a macro that names an empty macro or NULL got a wrong value",
      c07(["#define E", "#define A E 5", "#define B (E 6)"], [("E", True), ("A", 5), ("B", 6)]))
fixed("F12", "C07", "bbc2686", "an integer expression without parentheses became a string or list",
      c07(["#define A 1 << 4", "#define B 2 + 3 * 4"], [("A", 16), ("B", 14)]))
fixed("F13", "C07", "4a74722", "adjacent strings in parentheses ran into each other",
      c07(['#define A ("" "a")'], [("A", "a")]))
fixed("F14", "C07", "7e97f8a", "a macro with an unclosed parenthesis crashed the translation",
      c07(["#define A (", "#define B 2"], [("B", 2)]))
fixed("F15", "C07", "8d4632b", "a function-like macro without identifiers in its body became a constant",
      c07(["#define A() 1", "#define B 2"], [("B", 2)], ["A"]))
known("K01", "C07", "the quotient of two integers is a Python float: #define A (7/2) gives 3.5",
      c07(["#define A (7/2)"], [("A", 3)]))
known("K02", "C07", "a macro that names a macro defined later becomes no constant: #define A B / #define B 1",
      c07(["#define A B", "#define B 1"], [("A", 1), ("B", 1)]))
known("K03", "C07", "#undef is ignored: #define A 1 / #undef A still defines A",
      c07(["#define A 1", "#undef A"], [], ["A"]))
known("K04", "C07", "a macro named ctypes replaces the imported module",
      dict(c07(["#define ctypes 1"], [("ctypes", 1)]), body="struct body_s { int a; char b; };\n", pos=1, kinds="cdefmstu"))


def c08(src, expect, flags=(), kinds="cdefmstu"):
    return {"src": src + "\n", "expect": [list(e) for e in expect], "asserts": [], "labels": [], "kinds": kinds,
            "flags": list(flags)}


fixed("F16", "C08", "d1a289c", "octal, suffixed and hexadecimal float initialisers got a wrong value or crashed",
      c08("int a = 010; float f = -1.5f; double d = 0x1p3;",
          [("a", ["num", 8, 32]), ("f", ["flt", (-1.5).hex()]), ("d", ["flt", (8.0).hex()])]))
fixed("F17", "C08", "88129cc", "a variable that points to an integer crashed the translation or the module",
      c08("int *p; long **q;", [("p", ["any"]), ("q", ["any"])]))
fixed("F18", "C08", "097505c", "an array of records made the module unimportable",
      c08("struct s { int a; }; struct s v[2];", [("v", ["any"])]))
fixed("F19", "C08", "093ad0f", "an initialiser that is an expression got the value True or made the module unimportable",
      c08("int a = (7); int b = !5; int c = 7/2; int d = 'a'; int e[] = {(1), 1+1};",
          [("a", ["num", 7, 32]), ("b", ["num", 0, 32]), ("c", ["num", 3, 32]), ("d", ["num", 97, 32]),
           ("e", ["list", [["num", 1, 32], ["num", 2, 32]]])]))
fixed("F20", "C08", "38cf4b1", "a variable of enumeration type crashed the translation",
      c08("enum e {A, B}; enum e v = B;", [("v", ["num", 1, 32])]))
fixed("F21", "C08", "f83193c", "a variable holding an address, or a wide string, made the module unimportable",
      c08("int a; int *p = &a; __WCHAR_TYPE__ w[] = L\"wide\";", [("p", ["any"]), ("w", ["any"])]))
fixed("F22", "C08", "2b00ebf", "a variable of a record type declared later made the module unimportable",
      c08("struct s; extern struct s v; struct s {int a;}; struct s v;", [("v", ["any"])]))
fixed("F23", "C08", "50b7cd1", "a variable declared extern before its definition lost its value",
      c08("extern int x; int x = 5;", [("x", ["num", 5, 32])]))
fixed("F24", "C08", "2e4f857", "an initialiser spelled with a macro, or hexadecimal in a char array, got a wrong value",
      c08("#define N 5\nint x = N; unsigned char b[] = {0x1};", [("x", ["num", 5, 32]), ("b", ["list", [["num", 1, 8]]])],
          kinds="d"))
fixed("F25", "C08", "23db0e8", "a negated expression with a hexadecimal number crashed the translation",
      c08("int x = -(0 != 0x0);", [("x", ["num", 0, 32])]))
fixed("F26", "C08", "baa5433", "a negated character was taken for its text: -'0' gave 0",
      c08("int x = -'0';", [("x", ["num", -48, 32])]))
known("K05", "C08", "a variable of type _Complex double stops the translation",
      c08("_Complex double z;", [("z", ["any"])]))
known("K06", "C08", "designated array initialisers are not understood: int a[3] = {[1] = 5}",
      c08("int a[3] = {[1] = 5};", [("a", ["list", [["num", 0, 32], ["num", 5, 32], ["num", 0, 32]]])]))
known("K07", "C08", "a variable named like a Python keyword makes the module unimportable: int None = 1",
      c08("int None = 1; int x = 2;", [("x", ["num", 2, 32])]))
known("K08", "C08", "adjacent strings beyond ASCII are escaped: char *p = \"\u00e9\" \"b\"",
      c08("char *p = \"\u00e9\" \"b\";", [("p", ["str", "\u00e9b"])]))


def c06(src, target=None):
    return {"kind": "proto", "src": src, "labels": [], "target": target}


fixed("F27", "C06", "42cfd30", "a library given by its linker name (-l c) crashed the translation",
      {"kind": "bind", "libs": [], "fns": [0], "vars": [], "order": False, "std": ["c", "m"], "doc": False})
fixed("F28", "C06", "93b4c10", "functions of a library were bound to another library with the same file name",
      {"kind": "bind", "libs": [0, 3], "fns": [0, 6], "vars": [], "order": False, "std": [], "doc": False})
fixed("F29", "C06", "1f555bc", "the prototype of a function first declared without one was ignored", c06("int f(); int f(int);"))
fixed("F30", "C06", "cdc45c2", "an array parameter was an array, so no pointer could be passed: void f(int a[])",
      c06("void f(int a[3], int b[]);"))
fixed("F31", "C06", "2a57be2", "a parameter of function type had the host's pointer size for another target",
      c06("int f(int g(char));", "i386-linux"))
known("K09", "C06", "a function with a _Complex parameter stops the translation", c06("double f(double _Complex z);"))
known("K10", "C06", "a function named like a Python keyword makes the module unimportable: int lambda(int)",
      c06("int lambda(int); int g(int);"))


def c05(src, expect):
    return {"src": src + "\n", "expect": [[list(x) for x in g] for g in expect], "tables": [], "labels": [], "target": "",
            "flags": [], "kinds": "cdefmstu"}


fixed("F32", "C05", "d76746f", "an enumeration declared before its definition lost its constants",
      c05("enum e; enum e {A, B};", [[("A", 0), ("B", 1)]]))
fixed("F33", "C05", "0d684a1", "an enumeration declared in a record without a member lost its constants",
      c05("struct s {enum {A} ; int x;};", [[("A", 0)]]))
fixed("F34", "C01", "4b69e6f", "a record declared in a record without a member was missing",
      c01("struct s {struct t {int a;}; int x;};"))
known("K11", "C05", "an enumerator with the name of the enumeration's tag is replaced by the type: enum e {e}",
      c05("enum e {e};", [[("e", 0)]]))


def c09(src, name="input"):
    return {"src": src + "\n", "labels": [], "name": name, "kinds": None}


fixed("F35", "C09", "9beb950", "an unnamed enumeration or record in a file with an unusual name made the module unimportable",
      c09("enum { A, B }; struct { int x; } v;", "1 a+b(2)'s"))
fixed("F36", "C09", "e9e2f43", "a record whose first declaration precedes its definition was missing",
      c09("struct s; struct s { int a; };"))
known("K12", "C09", "a C identifier that is a Python keyword makes the module unimportable: typedef int lambda",
      c09("typedef int lambda; struct s { int a; };"))
known("K13", "C09", "a C identifier equal to a name of the module's support code replaces it: typedef int Structure",
      c09("typedef int Structure; struct s { int a; };"))
known("K23", "C09", "an identifier with a dollar sign makes the module unimportable: struct s$t",
      c09("struct s$t { int a; };"))
known("K24", "C09", "an identifier that Python normalises is exported under a name the module does not have: \\u00b5s",
      c09("int \u00b5s;"))


def c12(src, name="input", **o):
    return {"src": src + "\n", "opts": {"comments": False, "doc": False, "locations": False, **o}, "extra": [], "kinds": None,
            "name": name, "lib": False, "labels": []}


fixed("F37", "C09", "4e85168", "a record declared several times before its definition was missing",
      c09("struct s; struct s; struct s { int a; };"))
fixed("F38", "C12", "40c7f1f", "docstrings broke the module when the file name has a backslash or quotes",
      c12("int f(int a);", "u\\u00", doc=True))


def c10(*steps, mode="sequence"):
    return {"mode": mode, "labels": [], "steps": list(steps)}


def step(src, name="input.c", entry="files", **o):
    return dict(entry=entry, inputs=[name], files={name: src}, **o)


fixed("F39", "C10", "dabd323", "the types of the members of a base class came in the order of a set, which differs from run to run",
      c10(step("class X1 { public: int a; }; class X2 { public: int a; }; class X3 { public: int a; }; class X4 { public: int a; };"
               "class B { public: X1 a; X2 b; X3 c; X4 d; }; class E : public B { public: int e; };\n",
               "input.cpp", symbols=["class_E"]), step("int f(int a);\n")))
fixed("F40", "C10", "91c6993", "with two parsers in use, type names came from the parser that was made last",
      c10(step("struct s { long a; long double b; };\n", target="i386-linux"), step("struct s { long a; long double b; };\n"),
          mode="interleaved"))
fixed("F41", "C10", "d000f50", "all configurations shared their lists: adding a symbol to one added it to all",
      c10(step("struct s { int a; };\nstruct t { int b; };\n", symbols=["struct_s"], build="extend", cfg="a"),
          step("struct s { int a; };\nstruct t { int b; };\n", cfg="b")))
fixed("F42", "C10", "f985a8a", "translating with a preloaded library replaced its name in the configuration",
      c10(step("int f(int a);\n", preload=["libm.so.6"], cfg="a"), step("int f(int a);\n", preload=["libm.so.6"], cfg="a")))
fixed("F43", "C01", "150eb33", "a zero-width bit field took storage", c01("struct s { char a; int : 0; char b; };"))


def c14(src, also=False, process=False, **o):
    return {"src": src, "opts": o, "build": "extend", "bad": False, "process": process, "also": also, "labels": []}


import subprocess  # noqa: E402


def commit(subject):
    return subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).split(
        " fix: " + subject)[0].split("\n")[-1]


fixed("F44", "C14", commit("translate strings with the options"), "translate() of a string ignored target, flags and macros",
      c14("#define A 1\n#ifdef ZQ\nlong a;\n#endif\nstruct s { long a; char *b; };\n", target="i386-linux", flags=["-DZQ=1"],
          kinds="cdefmstu"))
fixed("F45", "C14", commit("remove the temporary file"), "reading from standard input left a file in the temporary directory",
      c14("int a;\n"))
known("K14", "C14", "a single file name or a string follows includes although they are not enabled",
      c14('#include "zqheader.h"\nstruct s { int a; };\n', also=True))


def c17(src, ints=(1, 2, 3, 4, 5, 6, 7, 8)):
    return {"src": src, "ints": list(ints), "strings": [], "labels": []}


fixed("F46", "C17", commit("convert the elements of nested"), "as_dict returned ctypes arrays and records for the elements of nested arrays",
      c17("struct z { int a; };\nstruct s { struct z x[2][2]; int y; };\n"))
fixed("F47", "C17", commit("accept a member named self"), "a record with a member named self could not be constructed by keyword",
      c17("struct s { int self; int y; };\n"))
fixed("F48", "C17", commit("leave the dictionary of"), "bind() removed the names from the dictionary of the caller",
      c17("struct s { int (*f)(int); int y; };\n", [1] * 99))
fixed("F49", "C17", commit("bind callbacks of records with bit"), "bind() of a record with bit fields raised ValueError",
      c17("struct s { int (*f)(int); unsigned int a : 12; unsigned int b : 20; unsigned int c; };\n"))
fixed("F50", "C17", commit("bind records with callbacks that"), "bind() of a record with a callback that returns a pointer or a record failed",
      c17("struct z { int a; };\nstruct s { struct z (*f)(int); struct z *(*g)(int); int y; };\n"))
fixed("F51", "C17", commit("do not take members whose"), "a member whose name starts with PADDING was left out of construction and dictionaries",
      c17("struct s { int PADDING; int y; };\n"))
fixed("F52", "C17", commit("convert null pointers"), "as_dict raised ValueError for a record with a null pointer",
      c17("struct s { int *p; int y; };\n", [0] * 8))
fixed("F53", "C17", commit("bind records with character"), "bind() of a record with an array of characters raised TypeError",
      c17("struct s { char a[3]; int (*f)(int); };\n"))
known("K15", "C17", "a member named like the generated padding (PADDING_0) is taken for padding",
      c17("struct s { int PADDING_0; int y; };\n"))


def sym(kind, weak=False):
    return {"kind": kind, "vis": "", "weak": weak, "ver": "", "name": "zq_" + kind, "label": ""}


fixed("F54", "C16", commit("know the weak"), "weak, zero-initialised, indirect and unique symbols of a library were missing",
      {"syms": [sym("func", True), sym("bss"), sym("ifunc"), sym("tlsbss"), sym("data", False)], "undefined": [], "m32": False,
       "starlocal": False, "versions": False, "opts": [], "nm": "nm", "fname": "libzq.so"})


def c15(files, sources, flat, **kw):
    return dict(dict(files=files, sources=sources, flat=flat, includes=False, kinds=None, paths="abs", entry="main", labels=[]), **kw)


H1 = "#pragma once\nstruct s { int a; };\n#define MACRO_0 100\n"
fixed("F55", "C15", commit("use the definition in an include"), "a record declared in the source file and defined in an include had no members",
      c15({"h.h": H1, "m.c": '#include "h.h"\nstruct s;\nstruct s *f(int);\n'}, ["m.c"], H1 + "struct s *f(int);\n"))
fixed("F56", "C15", commit("accept an incomplete record"), "two files that declare the same incomplete union could not be translated",
      c15({"a.c": "union u;\nunion u *f(int);\n", "b.c": "union u;\nunion u *g(int);\n"}, ["a.c", "b.c"],
          "union u;\nunion u *f(int);\nunion u *g(int);\n"))
fixed("F57", "C15", commit("give a record the size"), "a record declared in one file and defined in the next had the wrong size",
      c15({"a.c": "struct u;\nstruct u *f(int);\n", "b.c": "struct u { char *a; char b; };\n"}, ["a.c", "b.c"],
          "struct u { char *a; char b; };\nstruct u *f(int);\n"))
fixed("F58", "C15", commit("use the definition of a record that another"), "a record that one file declares and an include of another file defines had "
      "no members",
      c15({"a.c": "struct u { int a; struct s *p; };\nstruct w { struct u *q; };\n", "h.h": H1, "b.c": '#include "h.h"\nstruct t { struct s *a; };\n'},
          ["a.c", "b.c"], H1 + "struct u { int a; struct s *p; };\nstruct w { struct u *q; };\nstruct t { struct s *a; };\n"))
fixed("F59", "C15", commit("accept initialisers with macros of"), "with macros selected, a variable with a macro of an include raised KeyError",
      c15({"h.h": H1, "m.c": '#include "h.h"\nchar x = (0 & 0) != MACRO_0;\n'}, ["m.c"], H1 + "char x = (0 & 0) != MACRO_0;\n",
          kinds="cdefmstu"))
fixed("F60", "C15", commit("accept the typedef of an anonymous enumeration of an include"), "a function whose type uses the typedef of an anonymous enumeration of an include that is left out "
      "stopped the translation (duplicate definition)",
      c15({"h.h": "typedef enum { A, B } e_t;\n", "m.c": '#include "h.h"\ne_t f(int);\n'}, ["m.c"], "typedef enum { A, B } e_t;\ne_t f(int);\n"))
fixed("F61", "C15", commit("keep the records inside a record that another file"), "a record defined inside a record that another file only declares was lost",
      c15({"h.h": "#ifndef H\n#define H\nstruct n;\nstruct m { struct n *p; };\n#endif\n",
           "m.c": '#include "h.h"\nstruct n { int a; struct e { char c; }; };\n'}, ["h.h", "m.c"],
          "struct n;\nstruct m { struct n *p; };\nstruct n { int a; struct e { char c; }; };\n"))
fixed("F102", "C15", commit("the order of the source files"), "a record that a source file declares stayed incomplete when its definition was in an include of "
      "an earlier source file, not of a later one",
      c15({"h.h": "struct u { char *a; char b; };\n", "a.c": '#include "h.h"\nint g(int);\n', "b.c": "struct u;\nint f(struct u *);\n"}, ["a.c", "b.c"],
          "struct u { char *a; char b; };\nint f(struct u *);\nint g(int);\n"))
known("K16", "C15", "a macro of the source file that uses a macro of an included file has no value when includes are not enabled",
      c15({"h.h": H1, "m.c": '#include "h.h"\n#define MACRO_1 (MACRO_0 + 1)\n'}, ["m.c"], H1 + "#define MACRO_1 (MACRO_0 + 1)\n",
          kinds="cdefmstu"))
known("K17", "C03", "a record of up to 16 bytes with padding after a float, passed by value, arrives with other values: the "
      "padding members make ctypes pass it in other registers than C does",
      {"src": "struct fd { float a; double b; };\n", "cc": "gcc", "ints": [1, 2, 3, 4, 5, 6, 7, 3003], "sigs": [[0, 3]], "cbs": [],
       "globs": [], "labels": [], "any_record_by_value": True})


PRE = "enum eu { EA, EB = 200 };\nenum es { SA = -2, SB = 1 };\n"


def bits(src):
    return {"src": src, "labels": []}


fixed("F62", "C04", commit("keep the sign of bit fields"), "signed bit fields stored in another type were read as unsigned",
      bits("struct s { long b0:3; long b1:53; long m; };\n"))
fixed("F63", "C04", commit("bit fields of type char, _Bool"), "records with bit fields of type char could not be imported, and bit "
      "fields of type _Bool or of an enumeration read and wrote other bits",
      bits(PRE + "struct a { char b0:2; };\nstruct b { _Bool b0:1; _Bool b1:1; char c; };\nstruct c { enum es e:3; int m:29; };\n"))
fixed("F64", "C04", commit("only promote a char"), "a char behind a full storage unit of bit fields became a bit field",
      bits("struct s { unsigned int b0:29; char m1[1]; char m2; };\nstruct t { unsigned int b0:29; char m1; };\n"))
fixed("F65", "C04", commit("store bit fields of several types in one that"), "bit fields wider than the type of the first one raised "
      "ValueError on import", bits("struct s { char a:3; int b:29; };\n"))
fixed("F66", "C04", commit("store bit fields in the type of the widest one when"), "bit fields of a wider type behind one of a narrower type "
      "were misplaced", bits("struct s { unsigned char b0:5; int b1:5; int b2:22; };\n"))
fixed("F67", "C04", commit("store bit fields of several types in the widest one where"), "a record with bit fields of several types was too large",
      bits("struct s { char :8; int b0:5; };\nstruct t { char b0:7; char b1:1; enum e { A } b2:7; int m3; };\n"))
fixed("F68", "C04", commit("name anonymous members of a record apart"), "an anonymous member took the number that names an unnamed bit field: the "
      "module could not be imported",
      bits("typedef struct { struct { unsigned char f0:1; unsigned char :7; }; unsigned char f6:8; struct { unsigned char f8:8; }; } T0;\n"))
known("K18", "C04", "bit fields that share their storage unit with an ordinary member or with padding, that start inside a unit or "
      "span several, and bit fields of unions are misplaced or make the record too large",
      dict(bits("struct s { char m0; int b1:5; };\n"), any_shape=True))


fixed("F69", "C18", commit("read tokens without their line"), "a line continuation before or in a number of an initialiser raised ValueError",
      {"src": "char x = 127;\nint y[2] = {1, 23};\n", "new": "char x = \\\n127;\nint y[2] = {\\\n1, 2\\\n3};\n", "kinds": None, "labels": []})


def c19(src, **kw):
    return dict({"src": src, "header": "", "includes": False, "labels": []}, **kw)


fixed("F70", "C19", commit("find the base of a C++ class that is"), "a class derived from a structure, from a class of a namespace or from a typedef "
      "stopped the translation", c19("namespace n { struct a { int x; }; typedef a ta; }\nstruct b : n::a { int y; };\n"
                                     "class c : public n::ta { int z; };\n"))
fixed("F71", "C19", commit("the storage of the base of a C++ class counts once"), "a derived class had its base's members twice as padding",
      c19("struct a { int x; };\nstruct b : a { int y; };\n"))
fixed("F72", "C19", commit('translate the declarations in extern "C"'), 'declarations in an extern "C" block were left out',
      c19('extern "C" { struct a { int x; }; int f(a *p); }\n'))
fixed("F73", "C19", commit("references of C++ are stored"), "a reference had no type or the size of what it refers to",
      c19("struct a { char &x; int y; };\nint f(a &p);\n"))
fixed("F74", "C19", commit("char16_t is two bytes"), "char16_t became a character of four bytes", c19("struct a { char16_t x; char16_t y; };\n"))
fixed("F75", "C19", commit("translate classes defined in a class"), "a class defined in a class and not used as its member was left out",
      c19("struct a { class b { int x; }; int y; };\n"))
fixed("F76", "C19", commit("bases of a class that was declared before"), "a class declared before its definition lost its base, or its module could "
      "not be imported", c19("struct a; struct h { a *p; };\nstruct b { int x; };\nstruct a : b { int y; };\n"))
fixed("F77", "C19", commit("take the bases of a class once"), "a class reached again from its own members was derived twice from its base",
      c19("struct a { int x; };\nstruct o { struct m { struct i : public a { int y; m &r; }; }; m::i z; };\n"))
fixed("F78", "C09", commit("translate long chains of pointers between records"), "a chain of about ninety forward references between records "
      "ended in a RecursionError", c09("".join("struct c%d { struct c%d *n; }; " % (i, i + 1) for i in range(200))))
fixed("F79", "C20", commit("import the symbols of modules given with -m"), "the types of a module given with -m were generated again",
      {"chunks": ["struct s0 { int a; };\n", "struct s1 { struct s0 *p; };\n"], "cuts": [30], "package": False, "includes": True,
       "entry": "main", "order": False, "uses": [0], "target": None, "labels": []})
fixed("F80", "C02", commit("emulated pointers to different types of the same name"), "all function pointers of a target with other pointers "
      "than the host's had the type of the first one",
      c02("typedef int (*cb)(void *, const char *, ...); struct ops { cb a; void (*b)(void); cb c[2]; };", target="i386-linux"))
fixed("F81", "C14", commit("the output file is utf-8 whatever the locale"), "a text that is not ASCII could not be written under the C locale",
      {"src": "const char *zq_text = \"\u00e9\u4e2d\";\nstruct a { int x; };\n", "opts": {}, "build": "extend", "bad": False, "process": True,
       "locale": True, "log": None, "old": 0, "labels": []})

fixed("F82", "C02", commit("emulated pointers have the size of the target's pointers"), "pointers of targets with pointers of two bytes "
      "had four", c02("struct s { char *p; int x; struct s *n; };", target="avr", ptr=2))
fixed("F83", "C02", commit("double has the size of float on some targets"), "double had eight bytes on targets where it has four",
      c02("struct s { char c; double d; long double l; float f; };", target="avr", ptr=2))
fixed("F84", "C19", commit("wchar_t of two bytes"), "wchar_t had four bytes on targets where it has two",
      c19("struct T1 { wchar_t f2; char f3; };\n", flags=["-fshort-wchar"]))
fixed("F85", "C06", commit("docstrings of functions that the library lacks"), "with docstrings, a module could not be imported when a library "
      "lacks a function", {"kind": "swap", "first": 0, "second": 1, "fns": [0], "doc": True, "comments": False, "locations": False})
fixed("F86", "C19", commit("compiler flags that are not for C"), "every translation with -std=c++20 failed",
      c19("struct T1 final {  };\n", flags=["-std=c++20"]))
fixed("F87", "C08", commit("digit separators of C++14 and C23"), "a number with digit separators stopped the translation",
      dict(c08("int x = 1'000'000;", [("x", ["num", 1000000, 32])]), lang="c++"))
fixed("F88", "C19", commit("operators of C++ have no name in python"), "an operator function gave a module that cannot be imported",
      c19("struct T1 final {  };\nint operator+(const T1 &, int);\n"))
fixed("F89", "C08", commit("characters in the arrays of numbers of C++"), "a character in an array of numbers of C++ gave a module that cannot be "
      "imported", dict(c08("int x[2] = {1, 'a'};", [("x", ["list", [["num", 1, 32], ["num", 97, 32]]])]), lang="c++"))
fixed("F90", "C06", commit("results of functions written with typeof"), "a function whose result is written with typeof stopped the translation",
      {"kind": "proto", "src": "__typeof__(int) f(void);", "labels": [], "target": None})
fixed("F91", "C19", commit("alias templates of C++"), "a function whose result is an alias template stopped the translation",
      c19("template <class T> using a1 = T *;\na1<int> f1(a1<char>);\n"))
fixed("F92", "C19", commit("unnamed types of namespaces"), "the unnamed types of all namespaces had one class",
      c19("namespace a { struct { int x; } v; }\nnamespace b { struct { char y[7]; } w; }\n"))

fixed("F93", "C06", commit("arrays of variable length in prototypes"), "a parameter that points at arrays of variable length gave a module "
      "that cannot be imported", {"kind": "proto", "src": "void f(int n, double a[n][n], int (*b)[n]);", "labels": [], "target": None})
fixed("F94", "C20", commit("records that refer to themselves from their unnamed members"), "a record of an include that refers to itself from "
      "an unnamed member stopped the translation",
      {"chunks": ["struct node_2;\n", "struct node_3 { struct { char a6; }; struct { char a7; struct node_2 *a8[1]; } a9, a10; char a11; };\n",
                  "typedef struct node_3 node_12;\n", "struct node_13 { char a; struct node_3 a14; char a15; };\n",
                  "struct node_2 { char a[1]; node_12 a16[1]; char a17; };\n"],
       "cuts": [30], "package": False, "includes": False, "entry": "main", "order": False, "uses": [0], "target": None, "labels": []})
fixed("F95", "C02", commit("arrays with more elements than half"), "an array of 32768 or more elements gave a module that cannot be imported "
      "for targets with 16 bit pointers (libclang gives its size as a negative number)",
      {"how": "-t", "flags": [], "target": "avr", "ptr": 2, "labels": [], "src": "struct s { char a[32768]; char b; };\n"})

def c21(**k):
    return dict({"place": "unset", "pre": "none", "major": 18, "pmajor": 18, "name": "lib", "relative": False,
                 "other": "/usr/lib/x86_64-linux-gnu/libm.so.6", "source": None, "prelude": []}, **k)


fixed("F96", "C21", commit("a library other than clang"), "ctypeslib could not be imported when CLANG_LIBRARY_PATH names a library other than "
      "clang's", c21(place="other"))
fixed("F97", "C21", commit("the clang library that the program has configured"), "ctypeslib could not be imported by a program that had used "
      "the clang bindings before, and replaced the library that the program had configured", c21(pre="file-use"))
fixed("F98", "C21", commit("a percent sign in the path"), "--version failed when the path of the clang library contains a percent sign",
      c21(place="link", name="50%"))

fixed("F99", "C08", commit("initial values that a call of a constant"), "the value of a builtin (INFINITY, NAN) or of a constexpr function became 0",
      c08("double a = __builtin_inf(); int b = __builtin_strlen(\"abc\");", [["a", ["flt", "inf"]], ["b", ["num", 3, 32]]]))
fixed("F100", "C08", commit("infinities in initialiser lists"), "an infinity in an initialiser list, and nan, gave a module that cannot be imported",
      c08("double a[] = { 1e999, -1e999, 2 }; double b = -__builtin_nan(\"\");",
          [["a", ["list", [["flt", "inf"], ["flt", "-inf"], ["flt", "0x1p+1"]]]], ["b", ["flt", "nan"]]]))
fixed("F101", "C08", commit("initial values from offsetof"), "offsetof became 0, or True in a list; __builtin_choose_expr stopped the translation",
      c08("struct s { int a; char b; }; int a = __builtin_offsetof(struct s, b); int b[] = { __builtin_offsetof(struct s, b) };\n"
          "int c = __builtin_choose_expr(1, 5, 6);",
          [["a", ["num", 4, 32]], ["b", ["list", [["num", 4, 32]]]], ["c", ["num", 5, 32]]]))

known("K19", "C19", "records of the same name in different namespaces or classes share one ctypes class",
      c19("namespace a { struct p { int x; }; }\nnamespace b { struct p { char y[7]; }; }\nstruct q { a::p m; b::p n; };\n"))
known("K25", "C01", "a member of an _Atomic type (or _Complex, __float128, _BitInt: types that ctypes lacks) stops the translation",
      c01("struct s { _Atomic int a; char b; };"))
known("K26", "C01", "a typedef of a vector type stops the translation",
      c01("typedef int v4 __attribute__((vector_size(16)));\nstruct s { v4 a; char b; };"))
known("K20", "C19", "members of a derived class that the compiler places in the padding of its base, or at the place of an empty base, "
      "are misplaced", c19("class a { int x; char y; };\nclass b : public a { char z; };\n", any_base=True))
known("K21", "C19", "a member that is a pointer to a member stops the translation", c19("struct a { int x; };\nstruct b { int a::*p; };\n"))
known("K22", "C19", "a base class that points at the class derived from it gives a module that cannot be imported",
      c19("struct a;\nstruct b { a *p; };\nstruct a : b { int x; };\n", any_base=True))


def main():
    with open(os.path.join(VERIF, "known-findings.json"), "w") as f:
        json.dump(dict(findings=OUT), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
