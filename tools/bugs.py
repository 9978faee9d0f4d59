"""Specs of the planted bugs: see plant.py."""
G = "ctypeslib/codegen/codegenerator.py"
CH = "ctypeslib/codegen/cursorhandler.py"
TH = "ctypeslib/codegen/typehandler.py"
CP = "ctypeslib/codegen/clangparser.py"
H = "ctypeslib/codegen/handler.py"
U = "ctypeslib/codegen/util.py"
CF = "ctypeslib/codegen/config.py"
M = "ctypeslib/clang2py.py"
L = "ctypeslib/library.py"
ST = "ctypeslib/data/structure_type.tpl"
PT = "ctypeslib/data/pointer_type.tpl"
SC = "ctypeslib/data/string_cast.tpl"

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-long-padding", "C01",
    [(CH, "            pad_bytes = length // 8\n", "            pad_bytes = min(length // 8, 32)\n")],
    "a gap of more than 32 bytes between two members or at the end of a record (alignment of 64 or more)",
    "the padding member is too short, so the record is smaller than in C and later members move",
    '''
import ctypes
ns = mod("struct s { char a; int b __attribute__((aligned(128))); };")
same(ctypes.sizeof(ns["struct_s"]), 256, "size")
same(ns["struct_s"].b.offset, 128, "offset")
''')

bug("c02-ulong-as-wide-as-pointer", "C02",
    [(CP, """        self.ctypes_typename[TypeKind.ULONG] = f"c_uint{size:d}"
""", """        word = util.get_cursor(translation_unit, "pointer_t").type.get_size() * 8
        self.ctypes_typename[TypeKind.ULONG] = f"c_uint{word:d}"
""")],
    "an unsigned long member on a target where long is narrower than a pointer (64-bit Windows)",
    "unsigned long has the size of a pointer: records holding one have a wrong layout for that target",
    '''
import ctypes
ns = mod("struct s { int a; unsigned long b; int c; };", "-t", "x86_64-w64-windows-gnu")
same(ctypes.sizeof(ns["struct_s"]), 12, "size")
same(ns["struct_s"].c.offset, 8, "offset")
''')

bug("c05-forgets-duplicates", "C05",
    [(CH, """        obj = typedesc.EnumValue(name, value, parent)
        parent.add_value(obj)
""", """        obj = typedesc.EnumValue(name, value, parent)
        if value not in [_.value for _ in parent.values]:
            parent.add_value(obj)
""")],
    "two enumerators with the same value",
    "the second enumerator of a value is not defined",
    '''
ns = mod("enum e { FIRST, A = 3, B = 3, LAST };")
same((ns["A"], ns["B"], ns["LAST"]), (3, 3, 4), "values")
''')

bug("c06-shared-stub", "C06",
    [(G, """    def __getattr__(self, _):
      return ctypes.CFUNCTYPE(lambda y:y)
""", """    stub = ctypes.CFUNCTYPE(lambda y:y)
    def __getattr__(self, _):
      return self.stub
""")],
    "two functions with different prototypes and no library that exports them",
    "all stubs are the same object, so every function has the prototype of the last one",
    '''
import ctypes
ns = mod("int f(int a); double g(char *p, long q);")
same((ns["f"].restype, list(ns["f"].argtypes)), (ctypes.c_int, [ctypes.c_int]), "prototype of f")
''')

bug("c06-last-library-wins", "C06",
    [(G, "        for dll in self.searched_dlls:\n", "        for dll in self.searched_dlls[::-1]:\n")],
    "two libraries that export the same function",
    "a function is bound to the last library that exports it, not the first",
    '''
with tempfile.TemporaryDirectory() as d:
    libs = []
    for i in (1, 2):
        c, so = os.path.join(d, "l%d.c" % i), os.path.join(d, "libl%d.so" % i)
        open(c, "w").write("int which(void) { return %d; }\\n" % i)
        subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, c], check=True)
        libs += ["-l", so]
    ns = mod("int which(void);", *libs)
    same(ns["which"](), 1, "which library")
''')

bug("c10-shared-kinds", "C10",
    [(CF, "        self.types = types\n", "        self.types[:] = types\n")],
    "a configuration made or used between the creation of another one and its use",
    "the selected kinds are one list shared by all configurations",
    """
import types
from ctypeslib.codegen import config, codegenerator
from ctypeslib import clang2py as c
opts = lambda cfg, *a: c._make_parser(cfg).parse_args(list(a) + [__file__])
one = config.CodegenConfig()
one.parse_options(opts(one, "-k", "s"))
two = config.CodegenConfig()
ns = codegenerator.translate("struct s { int a; }; int f(int);", cfg=one)
same(("struct_s" in ns, "f" in ns), (True, False), "kinds")
""")

bug("c12-comment-lines", "C12",
    [(G, "        for _ in textwrap.wrap(item.comment, 78):\n", "        for _ in item.comment.split(\"\\n\"):\n")],
    "comment output on, and a comment with a lone carriage return in it",
    "the rest of the comment becomes code of the module",
    """
with tempfile.TemporaryDirectory() as d:
    p, o = os.path.join(d, "a.c"), os.path.join(d, "a.py")
    open(p, "wb").write(b"#define M /* first part\\rsecond part of it */ 1\\nstruct s { int a; };\\n")
    clang2py.main(["-c", "-k", "ms", "-o", o, p])
    ns = load(open(o, newline="").read().replace("\\r", "\\n"))
    same("struct_s" in ns, True, "struct_s")
""")

bug("c09-long-names", "C09",
    [(G, "textwrap.TextWrapper(break_long_words=False, initial_indent", "textwrap.TextWrapper(initial_indent")],
    "a name longer than a line of the export list",
    "the name is broken in two, so the module has a syntax error",
    """
n = "a_rather_long_name_" * 5
ns = mod("struct %s { int a; };" % n)
same("struct_" + n in ns["__all__"], True, "exported")
""")

bug("c11-rounds", "C11",
    [(G, "        while items:\n            loops += 1\n", "        while items and loops < 6:\n            loops += 1\n")],
    "a selected record from which a chain of more than six pointers leads to other records",
    "the records at the end of the chain have no members",
    """
src = "".join("struct s%d { int a; struct s%d *n; };" % (i, i + 1) for i in range(12)) + "struct s12 { int a; };"
ns = mod(src, "-s", "struct_s0")
same(hasattr(ns["struct_s12"], "_fields_"), True, "members of the last one")
""")

bug("c16-versions", "C16",
    [(L, "                if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]\n",
      "                if '@' in fields[2]: fields[2] = fields[2].split('@')[0]\n")],
    "a library with a symbol that exists only in an old, non-default version",
    "a symbol that can not be linked to any more is said to be exported",
    """
from ctypeslib.library import Library
with tempfile.TemporaryDirectory() as d:
    c, so, m = [os.path.join(d, n) for n in ("v.c", "libv.so", "v.map")]
    open(c, "w").write('__asm__(".symver old_f, gone@V1"); int old_f(void) { return 1; } int now(void) { return 2; }')
    open(m, "w").write("V1 { global: now; };")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, c, "-Wl,--version-script=" + m], check=True)
    lib = Library(so, nm="nm")
    same((hasattr(lib, "now"), hasattr(lib, "gone")), (True, False), "exported")
""")

bug("c15-same-basename", "C15",
    [(CP, "        self.__filter_location = [os.path.abspath(f) for f in src_files]\n",
      "        self.__filter_location = [os.path.basename(f) for f in src_files]\n"),
     (CP, "        filepath = os.path.abspath(node.location.file.name)\n        if filepath not in self.__filter_location:\n",
      "        filepath = node.location.file.name\n        if os.path.basename(filepath) not in self.__filter_location:\n")],
    "a source file that includes a file of the same name from another folder",
    "the declarations of the included file are emitted as if they were its own",
    """
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "inc"))
    open(os.path.join(d, "inc", "a.h"), "w").write("struct other { int a; };")
    p, o = os.path.join(d, "a.h"), os.path.join(d, "o.py")
    open(p, "w").write('#include "inc/a.h"\\nstruct mine { int a; };')
    clang2py.main(["-o", o, p])
    ns = load(open(o).read())
    same(("struct_mine" in ns, "struct_other" in ns), (True, False), "records")
""")

bug("c19-namespace-once", "C19",
    [(CH, '''    def NAMESPACE(self, cursor):  # noqa
        for child in cursor.get_children():
''', '''    def NAMESPACE(self, cursor):  # noqa
        usr = cursor.get_usr()
        if usr and usr in self.parser.fields:
            return
        self.parser.fields[usr] = True
        for child in cursor.get_children():
''')],
    "a namespace that is opened twice",
    "what the second part of the namespace declares is lost",
    """
ns = mod("namespace n { struct a { int x; }; } namespace n { struct b { int x; }; }", name="in.cpp")
same("struct_b" in ns, True, "struct_b")
""")

bug("c13-first-diagnostic", "C13",
    [(CP, "        for diagnostic in translation_unit.diagnostics:\n", "        for diagnostic in list(translation_unit.diagnostics)[:3]:\n")],
    "an error that comes after three warnings",
    "the invalid source is translated",
    """
src = "#warning a\\n#warning b\\n#warning c\\nstruct s { int a; };\\nstruct t { unknown_t a; };\\n"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.c")
    open(p, "w").write(src)
    same(bool(clang2py.main(["-o", os.path.join(d, "o.py"), p])), True, "rejected")
""")

bug("c03-pointer-to-callback", "C03",
    [(G, "        if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):\n",
      "        while isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.PointerType) and isinstance(\n"
      "                t.typ.typ, typedesc.FunctionType):\n            t = t.typ\n"
      "        if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):\n")],
    "a pointer to a function pointer (a member, a parameter)",
    "it is given the type of the function pointer, so calling through it jumps to the address of the pointer",
    """
import ctypes
ns = mod("struct s { int (**pp)(int); };")
same(hasattr(dict(ns["struct_s"]._fields_)["pp"], "restype"), False, "pp is a function pointer")
""")

bug("c05-minus-one", "C05",
    [(G, "                if item.value < 0:\n                    has_negative = True\n                    break\n",
      "                if item.value < -1 or item.value < 0 and len(tp.values) == 1:\n                    has_negative = True\n                    break\n")],
    "an enumeration whose only negative value is -1",
    "the enumeration's type is unsigned",
    """
ns = mod("enum e { NONE = -1, A, B };")
same(ns["enum_e" if "enum_e" in ns else "e"](-1).value, -1, "value")
""")

bug("c08-long-double-suffix", "C08",
    [(U, '''r"^([+-]?((\\d+(e|E)[+-]?\\d+)|(\\d+(\\.\\d*)?((e|E)[+-]?\\d+)?)|(\\.\\d+((e|E)[+-]?\\d+)?)))(f|F|l|L)?$"''',
      '''r"^([+-]?((\\d+(e|E)[+-]?\\d+)|(\\d+(\\.\\d*)?((e|E)[+-]?\\d+)?)|(\\.\\d+((e|E)\\d+)?)))(f|F|l|L)?$"''')],
    "a literal without digits before the point and with a signed exponent (.5e-3)",
    "the translation fails",
    """
ns = mod("double d = .5e-3f;")
same(abs(ns["d"] - .5e-3) < 1e-9, True, "value")
""")

bug("c18-block-comment-in-macro", "C18",
    [(CH, "            elif token.kind == TokenKind.COMMENT:  # noqa\n                log.debug('Ignore comment %s', value)\n",
      "            elif token.kind == TokenKind.COMMENT and value.startswith('//'):  # noqa\n                log.debug('Ignore comment %s', value)\n")],
    "a block comment in the middle of a macro or an initialiser",
    "the comment becomes part of the value",
    """
ns = mod("#define A 1 /* one */\\n#define B 2 /* two */ + 3\\nint x[] = { 1, /* c */ -2 };", "-k", "cdefstum")
same((ns.get("A"), ns.get("x")), (1, [1, -2]), "values")
same(ns.get("B"), mod("#define B 2 + 3", "-k", "m").get("B"), "B")
""")

bug("c04-wide", "C04",
    [(CH, "            bits = cursor.get_bitfield_width()\n", "            bits = min(cursor.get_bitfield_width(), 48)\n")],
    "a bit field wider than 48 bits",
    "the bit field is cut to 48 bits",
    """
ns = mod("struct s { unsigned long a:50; unsigned long b:14; };")
s = ns["struct_s"]()
s.a = 1 << 49
same(s.a, 1 << 49, "a")
""")

bug("c14-stdin-of-64k", "C14",
    [(M, '                _stdin.write(in_file.read())\n', '                _stdin.write(in_file.read(1 << 16))\n')],
    "a source of more than 64 K characters on the standard input",
    "the declarations after that are missing, as the cut is in a comment or between declarations",
    """
import io
with tempfile.TemporaryDirectory() as d:
    o = os.path.join(d, "o.py")
    sys.stdin = io.StringIO("// 456789\\n" * 6553 + "//34\\n" + " " * 1 + "struct s { int a; };\\n")
    src = sys.stdin.getvalue()
    clang2py.main(["-o", o, "-"])
    same("s" in open(o).read() and "struct_s" in load(open(o).read()), True, "declaration after %d characters" % src.index("struct"))
""")

bug("c14-temporary-file", "C14",
    [(M, """        with Input(options) as inputs, Output(options) as outputs:
""", """        inputs = Input(options)
        with Output(options) as outputs:
"""), (M, """            translate_files(inputs.files, outputs.stream, cfg)
""", """            translate_files(inputs.files, outputs.stream, cfg)
        inputs.__exit__(None, None, None)
""")],
    "a source on the standard input that cannot be translated",
    "the temporary file stays",
    """
import io
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = os.path.join(d, "tmp")
    os.mkdir(tempfile.tempdir)
    sys.stdin = io.StringIO("int f(nope);")
    clang2py.main(["-o", os.path.join(d, "o.py"), "-"])
    same(os.listdir(tempfile.tempdir), [], "temporary files")
""")

bug("c01-large-array", "C01",
    [(TH, "        size = _type.get_array_size()\n", "        size = min(_type.get_array_size(), 0xFFFF)\n")],
    "a member that is an array of 65536 or more elements",
    "the array is cut to 65535 elements, so that the record is smaller than in C and the members after it move",
    """
import ctypes
ns = mod("struct s { char a[65536]; int b; };")
same(ctypes.sizeof(ns["struct_s"]), 65540, "size")
same(ns["struct_s"].b.offset, 65536, "offset")
""")

bug("c02-unsigned-int-of-16-bits", "C02",
    [(CP, '        self.ctypes_typename[TypeKind.UINT] = f"c_uint{size:d}"\n', '        self.ctypes_typename[TypeKind.UINT] = "c_uint32"\n')],
    "a target whose int has 16 bits (avr, msp430)",
    "unsigned int members have four bytes in place of two",
    """
import ctypes
ns = mod("struct s { unsigned int a; int b; };", "-t", "msp430")
same(ctypes.sizeof(ns["struct_s"]), 4, "size")
same(ns["struct_s"].b.offset, 2, "offset")
""")

bug("c07-large-exponent", "C07",
    [(U, r'(\d+(\.\d*)?((e|E)[+-]?\d+)?)', r'(\d+(\.\d*)?((e|E)[+-]?\d)?)')],
    "a macro with a decimal literal that has digits after the point, an exponent of two digits and a suffix",
    "the macro is left out",
    """
ns = mod("#define A 1.5e10f\\n#define B 2.5e-12L\\n", "-k", "m")
same((ns.get("A"), ns.get("B")), (1.5e10, 2.5e-12), "values")
""")

bug("c08-utf8-string", "C08",
    [(CH, """^(L|u8|u|U)(R|"|')""", """^(L|u|U)(R|"|')""")],
    'a string with the prefix u8',
    "the text of the variable starts with the rest of the prefix",
    """
ns = mod('const char *a = u8"text"; char b[] = u8"x";')
same((ns["a"], ns["b"]), ("text", "x"), "values")
""")

bug("c09-sized-typedefs", "C09",
    [(G, "            print(\"%s = ctypes.%s\" % (name, sized_types[tp.name]), file=self.stream)\n            self.names.append(tp.name)\n",
      "            print(\"%s = ctypes.%s\" % (name, sized_types[tp.name]), file=self.stream)\n")],
    "a source that declares a type named like those of stdint.h",
    "the module does not export it",
    """
ns = mod("typedef unsigned char uint8_t; typedef int other;")
same([n for n in ("uint8_t", "other") if n not in ns["__all__"]], [], "missing in __all__")
""")

bug("c13-fatal", "C13",
    [(CP, "            if diagnostic.severity > 2:\n", "            if diagnostic.severity == 3:\n")],
    "a source with a fatal error and no other one: a header that does not exist",
    "what was read until then is translated as if it was the whole source",
    """
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "in.c")
    with open(p, "w") as f:
        f.write('struct a { int x; };\\n#include "zq_no_such_header.h"\\nstruct b { int y; };\\n')
    o = os.path.join(d, "out.py")
    try:
        rc = clang2py.main(["-o", o, p])
    except Exception:
        rc = 1
    same(bool(rc), True, "refused")
""")

bug("c15-real-path", "C15",
    [(CP, "        self.__filter_location = [os.path.abspath(f) for f in src_files]\n",
      "        self.__filter_location = [os.path.realpath(f) for f in src_files]\n")],
    "an input file that is named through a symbolic link",
    "everything in it is taken for the content of a header that is not followed, so that the module is empty",
    """
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "in.c")
    with open(p, "w") as f:
        f.write("struct a { int x; };")
    link = os.path.join(d, "link.c")
    os.symlink(p, link)
    o = os.path.join(d, "out.py")
    same(clang2py.main(["-o", o, link]), 0, "result")
    with open(o) as f:
        same("struct_a" in load(f.read()), True, "struct_a")
""")

bug("c10-set-order", "C10",
    [(G, "            [items.append(k) for k in self.more.keys() if k not in _s]\n",
      "            items.extend(set(self.more) - _s)\n")],
    "a filter that leaves out two or more records which the selected declarations refer to by pointer only",
    "the order of their classes, and so the text of the module, differs from run to run",
    """
src = "".join("struct s%d { int a; };" % i for i in range(12)) + "struct z { %s };" % " ".join("struct s%d *p%d;" % (i, i) for i in range(12))
texts = {gen(src, "-s", "struct_z")}
for i in range(12):
    keep = [object() for _ in range(i * 997)]
    texts.add(gen(src, "-s", "struct_z"))
same(len(texts), 1, "different texts")
""")

bug("c11-pointed-union", "C11",
    [(G, "            self.more[tp.typ] = True\n", "            self.more.update({tp.typ: True} if isinstance(tp.typ, typedesc.Structure) else {})\n")],
    "a filter that leaves out a union which a selected declaration refers to by pointer only",
    "the union has no members in the module",
    """
ns = mod("union u { int a; char b[9]; }; struct s { union u *p; };", "-s", "struct_s")
same([f[0] for f in getattr(ns["union_u"], "_fields_", []) if not f[0].startswith("PADDING")], ["a", "b"], "members")
""")

bug("c20-submodules", "C20",
    [(CF, "            for submodule in name.split(\".\")[1:]:\n", "            for submodule in name.split(\".\")[1:2]:\n")],
    "a module given with -m that is in a package of a package",
    "its types are not known and generated again",
    """
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "zqa", "zqb"))
    for f in ("zqa/__init__.py", "zqa/zqb/__init__.py"):
        open(os.path.join(d, f), "w").close()
    with open(os.path.join(d, "zqa", "zqb", "zqc.py"), "w") as f:
        f.write(gen("struct a { int x; };"))
    sys.path.insert(0, d)
    import zqa.zqb.zqc
    ns = mod("struct a { int x; }; struct b { struct a m; };", "-m", "zqa.zqb.zqc")
    same(ns["struct_a"] is zqa.zqb.zqc.struct_a, True, "struct_a")
""")

bug("c20-imported-by-the-module", "C20",
    [(CF, "                if isinstance(item, type):\n", "                if isinstance(item, type) and item.__module__ in (mod.__name__, 'ctypes'):\n")],
    "a module given with -m that itself imports a type from another one",
    "the type is generated again, so that there are two classes for it",
    """
with tempfile.TemporaryDirectory() as d:
    sys.path.insert(0, d)
    with open(os.path.join(d, "zq_first.py"), "w") as f:
        f.write(gen("struct a { int x; };"))
    import zq_first
    with open(os.path.join(d, "zq_second.py"), "w") as f:
        f.write(gen("struct a { int x; }; struct b { struct a m; };", "-m", "zq_first"))
    import zq_second
    same(zq_second.struct_a is zq_first.struct_a, True, "struct_a of the second module")
    ns = mod("struct a { int x; }; struct b { struct a m; }; struct c { struct a n; struct b o; };", "-m", "zq_second")
    same(ns["struct_a"] is zq_first.struct_a, True, "struct_a")
""")

INIT = "ctypeslib/__init__.py"
CHOICE = """
import json
def child(path, code, before=""):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), CLANG_LIBRARY_PATH=path)
    p = subprocess.run([sys.executable, "-c", before + "\\nimport warnings, json\\nwith warnings.catch_warnings(record=True) as w:\\n"
                        "    warnings.simplefilter('always')\\n    import ctypeslib\\n" + code], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode:
        sys.exit(p.stderr.decode()[-500:])
    return json.loads(p.stdout.decode().strip().split("\\n")[-1])
"""

bug("c21-directory", "C21",
    [(INIT, "        if not os.path.exists(__lib_path):\n", "        if not os.path.isfile(__lib_path):\n")],
    "CLANG_LIBRARY_PATH is a directory with a library other than the default one",
    "the directory is ignored",
    CHOICE + """
lib = "/usr/lib/x86_64-linux-gnu/libclang-17.so.1"
with tempfile.TemporaryDirectory() as d:
    os.symlink(lib if os.path.exists(lib) else "/usr/lib/llvm-18/lib/libclang.so.1", os.path.join(d, "libclang.so"))
    n = child(d, "print(json.dumps([str(x.message) for x in w if 'exist' in str(x.message)]))")
    same(n, [], "warnings")
""")

bug("c21-first-digit", "C21",
    [(INIT, "        if clang_version().split('.')[0] != clang_py_version().split('.')[0]:\n",
      "        if clang_version()[0] != clang_py_version()[0]:\n")],
    "a library of another major version with the same first digit",
    "no warning about the versions",
    CHOICE + """
lib = "/usr/lib/x86_64-linux-gnu/libclang-17.so.1"
if os.path.exists(lib):
    n = child(lib, "print(json.dumps([str(x.message) for x in w if 'different' in str(x.message)]))")
    same(len(n), 1, "warnings %s" % n)
""")

bug("c17-eleventh-padding", "C17",
    [(CH, "        name = 'PADDING_%d' % padding_nb\n", "        name = 'PADDING_%x' % padding_nb\n")],
    "a record with eleven gaps or more between its members",
    "the padding PADDING_a is taken for a member: positional construction fills it and dictionaries contain it",
    """
ns = mod("struct s { %s };" % " ".join("char a%d; int b%d;" % (i, i) for i in range(12)))
s = ns["struct_s"](*range(24))
same(s.b11, 23, "the last member")
same(len(type(s).as_dict(s)), 24, "members of the dictionary")
""")

bug("c11-many-expressions", "C11",
    [(G, "        for s in self.cfg.expressions:\n", "        for s in self.cfg.expressions[-4:]:\n")],
    "more than four -r expressions",
    "only the last four expressions select anything",
    """
ns = mod("struct a { int x; }; struct b { int x; }; struct c { int x; }; struct d { int x; }; struct e { int x; }; struct f { int x; };",
         *[a for n in "abcdef" for a in ("-r", "struct_" + n)])
same(sorted(n for n in ns if n.startswith("struct_") and len(n) == 8), ["struct_" + n for n in "abcdef"], "records")
""")

bug("c20-private-names", "C20",
    [(CF, "                if isinstance(item, type):\n", "                if isinstance(item, type) and not name.startswith('_'):\n")],
    "a module given with -m has a type whose name begins with an underscore",
    "the type is generated again rather than imported",
    """
with tempfile.TemporaryDirectory() as d:
    sys.path.insert(0, d)
    with open(os.path.join(d, "zq_priv.py"), "w") as f:
        f.write(gen("typedef struct { int x; } _base; typedef int i;"))
    import zq_priv
    ns = mod("typedef struct { int x; } _base; struct top { _base b; };", "-m", "zq_priv")
    same(ns["_base"] is zq_priv._base, True, "_base")
    same(ns["__all__"], ["struct_top"], "names that the module defines itself")
""")
