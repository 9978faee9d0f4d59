#!/opt/venv/bin/python
"""The one list of properties: writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
G = "ctypeslib/codegen/codegenerator.py"
CH = "ctypeslib/codegen/cursorhandler.py"
TH = "ctypeslib/codegen/typehandler.py"
CP = "ctypeslib/codegen/clangparser.py"
H = "ctypeslib/codegen/handler.py"
U = "ctypeslib/codegen/util.py"
CF = "ctypeslib/codegen/config.py"
M = "ctypeslib/clang2py.py"
L = "ctypeslib/library.py"
T = "ctypeslib/data/structure_type.tpl"


def P(id, title, statement, over, text, why, mech, observe, technique, note, state=()):
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    return dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note)


PROPS = [
    P("C01", "Generated records have the C layout on the host",
      "For every C source without bit fields, each struct and union in the generated module has the C compiler's "
      "size, and each member is present under its C name, in order, at the compiler's offset, with a ctypes type of "
      "the same size, kind (signedness, pointer, array extents, record identity, callback) and meaning. Typedefs "
      "name the type they name in C. This holds for nested, anonymous, packed, aligned, empty, forward-declared, "
      "self-referencing and mutually referencing records.",
      ["programs", "inputs"], "all C declarations of records, typedefs, enums, arrays, pointers and function pointers "
      "without bit fields, for the host ABI",
      "The suite checks about twenty fixed records; layout is decided by the combination of member kinds, packing, "
      "alignment, nesting and declaration order, which no list of samples covers.",
      [("record members and padding", CH + ":STRUCT_DECL,_record_decl,_fixup_record,_make_padding,FIELD_DECL"),
       ("type conversion", TH + ":POINTER,_array_handler,RECORD,TYPEDEF,_handle_fundamental_types"),
       ("record output order", G + ":Structure,StructureHead,StructureBody")],
      ["ctypes.sizeof / field offsets of classes in the imported module"],
      "Hypothesis-generated C units; libclang layout queries as reference model; shrinking",
      "generated declarations compared member by member with the layout libclang reports; no bit fields"),
    P("C02", "Generated records have the target's layout for any requested target",
      "When a target or ABI flag is given, every record without bit fields in the generated module has the size, "
      "member offsets and member types that the C compiler uses for that target, even though the module is imported "
      "on a host with other word and pointer sizes. Pointers and function pointers occupy the target's pointer size, "
      "and an emulated pointer knows the type it points to.",
      ["programs", "configurations"], "all C declarations without bit fields x targets (16/32/64 bit, several OS ABIs, "
      "both endiannesses for layout) and ABI flags such as -m32, -fshort-enums, -fpack-struct, -mlong-double-64",
      "The cross-arch tests look at a few fixed records on two targets.",
      [("size table per target", CP + ":make_ctypes_convertor"),
       ("emulated pointers", G + ":enable_pointer_type, ctypeslib/data/pointer_type.tpl"),
       ("target option", CF + ":_parse_options_clang_opts,cross_arch")],
      ["ctypes.sizeof / field offsets of classes in the imported module"],
      "Hypothesis-generated C units x targets; libclang layout for that target as reference model",
      "about twenty targets of 16, 32 and 64 bits and several flag sets; layout compared with libclang for the same target"),
    P("C03", "Data written by Python is read by compiled C unchanged, and back",
      "A record filled field by field through the generated classes holds, byte for byte, the values natively "
      "compiled code reads from it, and values stored by compiled code read back the same in Python. Passing such "
      "records and scalars by value or by pointer to functions of a shared library through the generated wrappers, "
      "and receiving results, preserves every value.",
      ["programs", "inputs"], "all records and function signatures of scalars, arrays, nested records, pointers and "
      "enums, and all values of their fields, on the host",
      "No existing test runs compiled C code against generated classes.",
      [("record fields", CH + ":FIELD_DECL,_fixup_record"), ("fundamental types", TH + ":_handle_fundamental_types"),
       ("functions bound to a library", G + ":Function,find_library_with_func,get_sharedlib")],
      ["values read by a compiled C library and by Python"],
      "Hypothesis-generated records, values and signatures; differential against gcc-compiled code",
      "generated C is compiled with gcc and run in a child process; no variadics, no bit fields, no long double by value"),
    P("C04", "Bit fields keep the compiler's storage and do not overlap",
      "A record with bit fields has the compiler's size, and every bit field reads and writes exactly the bits the "
      "compiler gives it, with its C name, width and signedness; writing one member never changes another. This holds "
      "for structures whose adjacent bit fields (of any integer, _Bool or enumeration types) share one storage unit of "
      "their widest type, with any members before and after it, nested in other records, arrays or anonymous members.",
      ["programs", "inputs"], "structures whose runs of adjacent bit fields start on and stay in one storage unit of their "
      "widest type that nothing else overlaps; other shapes are a known finding and only tried from a fixed pool",
      "The tests cover a dozen fixed bit-field records and mostly their sizes.",
      [("bit-field storage", CH + ":_fixup_record_bitfields_type,FIELD_DECL,_fixup_record")],
      ["raw bytes of generated records after field writes"],
      "Hypothesis-generated bit-field records; libclang bit offsets as reference model; write/read-back of raw memory",
      "16000 fixed-pool records of arbitrary shapes are tried as well; those that fail on the current tree are listed "
      "(K18, known-bitfields.json)"),
    P("C05", "Enumerations keep their constants, size and signedness",
      "Every enumerator is defined with its C value, the enumeration's value table maps each value to an enumerator "
      "that has it, and the enumeration's type has the compiler's size and can hold each of its values. This holds for named, "
      "unnamed, typedef'd and record-scoped enumerations, for negative, duplicate and 64-bit values, and with short enums.",
      ["programs", "inputs", "configurations"], "all enumerations and enumerator values, with and without "
      "-fshort-enums, for several targets",
      "The tests use a handful of small enumerations.",
      [("enum parsing", CH + ":ENUM_DECL,ENUM_CONSTANT_DECL"), ("enum output", G + ":Enumeration,EnumValue,Typedef"),
       ("unnamed enums", H + ":_make_unknown_name,get_unique_name")],
      ["names of the imported module"],
      "Hypothesis-generated enumerations; generator's own values and libclang sizes as reference",
      "values compared with the generating model and sizes with libclang"),
    P("C06", "Functions keep their prototype and are bound to the right library",
      "Every declared C function appears under its name with a result type and argument types that match its prototype in "
      "number, order, size, signedness and pointer kind. It is bound to the first given library that exports it, and to a "
      "placeholder that carries the same prototype when none does; function pointer types describe the same prototype and "
      "work as callbacks.",
      ["programs", "configurations"], "all prototypes over scalars, pointers, arrays, records, enums, typedefs and "
      "callbacks, any set of libraries exporting any subset of them",
      "The tests check a few prototypes and only one library.",
      [("prototypes", CH + ":FUNCTION_DECL,PARM_DECL"), ("function types", TH + ":FUNCTIONPROTO,FUNCTIONNOPROTO"),
       ("binding", G + ":Function,find_library_with_func,get_sharedlib")],
      ["restype and argtypes in the imported module; results of calls"],
      "Hypothesis-generated prototypes and libraries; libclang types and call results as oracle",
      "prototypes compared with libclang; binding observed by calling functions of gcc-built libraries that return "
      "distinct values"),
    P("C07", "Object-like macros become constants equal to their C value, or nothing",
      "With macros selected, every object-like macro whose body is a number, character, string, adjacent strings, integer "
      "expression without division, signed or parenthesised form of these, or the name of such an earlier macro, becomes a module "
      "constant equal to the value C gives it (a character is a one-character string). A macro without body "
      "becomes True; function-like macros and macros that refer to unknown identifiers define no name, and no set "
      "of macros makes the module unimportable.",
      ["inputs", "programs"], "all macro bodies over C literals (all bases, suffixes, escapes, prefixes), arithmetic, "
      "adjacent strings, other macros, and any other tokens; in C and, with its digit separators, in C++",
      "The tests list about forty macro bodies.",
      [("macro parsing", CH + ":MACRO_DEFINITION,_literal_handling"), ("number conversion", U + ":from_c_float_literal"),
       ("macro output", G + ":Macro")],
      ["names of the imported module"],
      "Hypothesis-generated macro sets; value model and clang/gcc evaluation as oracle",
      "values from the generating model; arbitrary-token macros are checked for importability only"),
    P("C08", "Initialised variables keep their initial value",
      "Every global variable of arithmetic, enumeration, character, string or array type that is initialised with constants becomes "
      "a module variable with the value written in C: numbers (literals, expressions, macros, enumerators), characters and strings "
      "as their text, arrays as lists. Uninitialised variables get the type's zero value, and a definition's value wins over "
      "earlier declarations. No such variable, record or pointer variable makes the module unimportable.",
      ["programs", "inputs"], "all global variables of arithmetic, enumeration, character, string and array type and "
      "constant initialisers, in C and in C++ (also in braces and parentheses, constexpr, in namespaces)",
      "The tests use about thirty fixed initialisers.",
      [("initialisers", CH + ":VAR_DECL,_VAR_DECL_value,_get_var_decl_init_value,_literal_handling,_operator_handling"),
       ("variable output", G + ":Variable")],
      ["names of the imported module"],
      "Hypothesis-generated variables and literals; value model as oracle",
      "values from the generating model, integers confirmed by the front end; record initialisers only checked for importability"),
    P("C09", "Generated modules import and export exactly what the source declares",
      "For every valid C source and any order of declarations, the generated module imports, and its export list is sorted, "
      "has no name that is missing from the module, and contains every declared record, typedef, "
      "enumeration, enumerator, function and variable. Names are declared before use whatever the dependency cycles between records.",
      ["programs"], "all C sources over records, typedefs, enums, functions, callbacks, variables and macros with "
      "arbitrary dependency graphs",
      "The tests import a few fixed modules.",
      [("ordering", G + ":_generate,generate_items,Structure,PointerType"), ("export list", G + ":generate_code"),
       ("duplicates", CP + ":register")],
      ["import of the generated text; __all__"],
      "Hypothesis-generated whole headers with dependency graphs; export-set model as oracle",
      "identifiers that are Python keywords or collide across C name spaces are recorded as findings"),
    P("C10", "Translation is a function of its inputs alone",
      "Translating the same source with the same options gives the same text, whatever was translated before in the same "
      "process, whatever other targets, options, libraries or failing inputs were used, and whatever the hash seed. A "
      "configuration object is not changed by using it, and two configurations never influence each other.",
      ["histories", "configurations"], "all sequences of translations, successful or failing, with differing sources, "
      "targets, options and interfaces in one process",
      "Each test translates once per configuration and never compares with a fresh process.",
      [("per-parser state", CP + ":__init__,make_ctypes_convertor,ctypes_typename"),
       ("configuration defaults", CF + ":CodegenConfig"), ("output order", G + ":generate_items,Structure")],
      ["the generated text"],
      "stateful Hypothesis histories; fresh-process output as reference model",
      "histories of up to a dozen steps over a pool of sources, targets and options"),
    P("C11", "Filters select exactly the requested declarations",
      "Selecting kinds emits exactly the declarations of those kinds plus what they need; selecting symbols or regular "
      "expressions emits exactly the matching declarations plus what they need. Every selected declaration is defined as it is without "
      "filters, and unselected, unneeded names are absent. Letters that are no kind are rejected.",
      ["programs", "configurations"], "all sources x subsets of kinds x symbol lists x regular expressions",
      "The tests try single kinds and a few symbols on one file.",
      [("filters", G + ":filter_types,filter_symbols,filter_expressions"),
       ("kind table", CF + ":_init_types,_type_table"), ("dependencies", G + ":_generate,Structure")],
      ["names and definitions of the imported module"],
      "Hypothesis-generated headers and selections; dependency-closure model and unfiltered module as oracle",
      "closure computed by the generator from the declarations it wrote"),
    P("C12", "Comments, docstrings and locations never change what is defined",
      "Turning on comment, docstring or location output, or verbosity, only adds comments and docstrings: the module still imports and "
      "defines the same names with the same types, layouts and values. Reported locations point at the line of the declaration "
      "in the source file.",
      ["programs", "configurations"], "all sources, with arbitrary comment text, x all subsets of the three options",
      "The tests switch these options on for one or two headers.",
      [("comments", G + ":print_comment"), ("locations", G + ":_generate,Function,Macro"),
       ("docstrings", G + ":Function")],
      ["the imported module; its comments"],
      "Hypothesis-generated headers with hostile comments; metamorphic comparison with the plain module",
      "definition fingerprints compared between option sets"),
    P("C13", "Invalid source is rejected, never half translated",
      "Any source that the C compiler rejects (for something outside function bodies) makes the translation fail: the command exits "
      "non-zero, the library functions raise an exception, and no module is returned. Any source it accepts, with or without warnings, is not reported as invalid.",
      ["inputs", "programs"], "all texts: valid sources, mutated sources, missing includes, arbitrary bytes",
      "Three fixed broken files are tested.",
      [("diagnostics", CP + ":_parse_tu_diagnostics,parse,parse_string"), ("exit status", M + ":main")],
      ["exit status, exceptions"],
      "mutation fuzzing of generated C; the clang front end's verdict as oracle",
      "verdict of libclang on the same text with the same flags"),
    P("C14", "All entry points agree",
      "The command line, its standard-input and standard-output forms, the library functions on files and on strings, "
      "and the module-object form produce the same definitions for the same source and options, however the options are spelled, and "
      "leave no temporary files. A namespace object gives the same names by attribute and by key.",
      ["programs", "configurations"], "all sources x options accepted by more than one interface",
      "The tests never compare interfaces.",
      [("entry points", G + ":translate,translate_files,CodeTranslator"), ("command line", M + ":main,Input,Output"),
       ("namespace", U + ":ADict")],
      ["text and modules from each interface"],
      "Hypothesis-generated headers x options; differential testing between interfaces",
      "in process for all interfaces, in real processes for a part of the cases; sources with includes only where the current tree follows them alike"),
    P("C15", "Included files are followed or left out as requested",
      "By default only declarations written in the given source files, plus the types they need, are emitted; with includes enabled "
      "all declarations of included files are emitted too. Several source files give the union of their declarations, "
      "each once, in an order-independent set.",
      ["programs", "configurations"], "all include graphs and splits of a declaration set over files",
      "The tests use two fixed include trees.",
      [("location filter", CP + ":filter_location,start_element,parse"), ("include option", M + ":_make_parser"),
       ("several files", G + ":parse_input_files")],
      ["names of the imported module"],
      "Hypothesis-generated splits of a header over include trees; set model and one-file translation as oracle",
      "include guards always present; relative and absolute paths, directories, symbolic links to files and directories"),
    P("C16", "The symbol reader knows exactly the library's exported definitions",
      "For any shared library, the symbol table object has an attribute for each function and variable that the library exports "
      "(strong or weak, initialised or not, constant, thread-local, indirect; without version or in its default version), and raises "
      "AttributeError for anything else: undefined, local, hidden, static or absent names.",
      ["inputs", "configurations"], "all ELF shared libraries built from functions and variables of every "
      "visibility, binding and section",
      "One prebuilt library and one symbol are tested.",
      [("symbol table", L + ":Library._get_symbols,__getattr__")],
      ["attributes of Library objects; functions bound by generated modules"],
      "Hypothesis-generated libraries compiled with gcc; generator's export model and readelf as oracle, calls through modules",
      "ELF for x86-64 and i386, three nm programs, and the system's own libraries"),
    P("C17", "Generated records offer the documented Python conveniences",
      "Positional construction fills members in order and never padding, keyword construction fills by name, and reading back gives "
      "what was given; dictionary conversion returns every member and no padding, recursively; "
      "member type lookup and callback binding behave as documented; string casts round-trip text in any encoding.",
      ["programs", "inputs"], "all generated record classes without bit fields and all values for them",
      "The tests try a few fixed records.",
      [("record base classes", T + ":Structure,Union,AsDictMixin"),
       ("string casts", "ctypeslib/data/string_cast.tpl:string_cast,char_pointer_cast")],
      ["Python-level behaviour of generated classes"],
      "Hypothesis-generated records and values; dictionary model as oracle",
      "operates on generated modules, host target"),
    P("C18", "Layout of the source text does not matter",
      "Whitespace, line breaks, line continuations, comments, redundant qualifiers and parentheses, repeated compatible declarations, macro-expanded "
      "spelling of types and a different but valid declaration order do not change what the generated module defines.",
      ["programs"], "all sources x semantics-preserving rewrites of their text",
      "No test rewrites a source and compares.",
      [("cursor handling", CH + ":parse_cursor"), ("names", H + ":get_unique_name,make_python_name"),
       ("registration", CP + ":register,start_element")],
      ["definitions of the imported module"],
      "Hypothesis-generated headers and rewrites; metamorphic comparison of definitions",
      "definition fingerprints of original and rewritten source compared"),
    P("C19", "C++ records keep their layout, base classes and names",
      "For C++ sources whose type names are distinct over all scopes, every class, struct and union - at file scope, in namespaces, "
      "in extern \"C\" blocks or nested in other classes, alone or derived from one base - appears as class_X, struct_X or union_X with "
      "the compiler's size and its members, in order, at the compiler's offsets with the right types; references are stored and "
      "passed as pointers; a derived class is a Python subclass of its base's class and shows the inherited members at their "
      "offsets; methods, constructors, static members, friends and access sections add no storage. Plain functions, typedefs and "
      "enumerations (scoped or with a fixed type) of every scope come out as well.",
      ["programs"], "all C++ declarations with namespaces, nesting, forward declarations, single inheritance, methods, static "
      "members, references and headers, also with virtual functions, beside templates, operators, overloads and lambdas, and each "
      "class template used once; without bit fields, pointers to members and multiple or virtual inheritance",
      "A few fixed C++ files are tested.",
      [("C++ records", CH + ":CLASS_DECL,CXX_BASE_SPECIFIER,NAMESPACE,_record_decl"), ("names", H + ":get_unique_name")],
      ["ctypes.sizeof / field offsets / base classes of classes in the imported module"],
      "Hypothesis-generated C++ units; libclang layout as reference model",
      "layout compared with libclang; classes whose members the compiler puts in the padding of the base are discarded (K20)"),
    P("C20", "Types of the modules given with -m are imported, not generated again",
      "With -m MODULE (plain or in a package of any depth, several times), every record and typedef that a translation needs and that MODULE has as "
      "a class of the same name is MODULE's class in the generated module: there is no second class for it, and members, array "
      "elements, pointers, parameters and results of everything the module declares itself refer to MODULE's class, so that objects "
      "pass between the modules. What the source declares itself is generated, exported and laid out as in a translation "
      "without -m.",
      ["programs", "configurations"], "all C programs cut into a part translated earlier (into one to three modules) and the rest, where "
      "the first part defines what it declares; command line and configuration objects; native and 32-bit targets",
      "No test uses -m.",
      [("symbols of modules", CF + ":_parse_options_modules"), ("import instead of generation", G + ":_generate,_import_known_symbol")],
      ["identity of classes of the imported modules", "ctypes.sizeof / field offsets"],
      "Hypothesis-generated programs cut into modules; identity of classes, comparison with the uncut translation and libclang",
      "separate translation of generated parts against the translation of the whole"),
    P("C21", "The clang library is the one the user chose, and any choice still translates",
      "Whatever CLANG_LIBRARY_PATH holds, and whatever the program did with clang's Python bindings before, importing ctypeslib succeeds "
      "as long as a clang library is installed. A usable library file, link or directory in the variable is the library that is "
      "used; an absent, damaged or foreign one is reported with a RuntimeWarning and replaced by another; a library that the "
      "program has loaded before is kept, and one it has configured is used. clang_version() and --version tell the version of the "
      "library in use, a RuntimeWarning tells when its major version differs from the bindings', and the generated definitions "
      "are the same with every library.",
      ["configurations", "configurations"], "all values of the variable (file, link, directory, absent, damaged, foreign, with any name, "
      "absolute or relative) and all earlier configurations and uses of clang.cindex, with each clang library of the system",
      "No test sets CLANG_LIBRARY_PATH.",
      [("choice of the library", "ctypeslib/__init__.py:__configure_clang_cindex,__find_clang_libraries,clang_version"),
       ("--version", "ctypeslib/clang2py.py:version_string")],
      ["import of ctypeslib", "libraries mapped into the process", "warnings", "generated module"],
      "Hypothesis-generated environments, one process each; the library asked directly, and translation with another library, as oracle",
      "the libraries installed here (two major versions) stand for all"),
]

NOT_APPLICABLE = {}


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["prop"]) + "\n")
            pid = p["prop"]["id"]
            if os.path.exists(os.path.join(VERIF, "pbt", "checks", pid.lower() + ".py")):
                checks.append(dict(property=pid, quick_cmd="%s run.py %s" % (PY, pid),
                                   thorough_cmd="%s run.py %s --tier thorough" % (PY, pid),
                                   technique=p["technique"], level="exploration", level_note=p["note"]))
            else:
                na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "check not built yet")))
    man = dict(version=1, setup_cmd="%s tools/selftest.py" % PY, checks=checks, not_applicable=na)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        import sys
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import jsonschema
    except ImportError:
        return
    with open("/root/.vp/PROPERTIES.schema.json") as f:
        s = json.load(f)
    for p in PROPS:
        jsonschema.validate(p["prop"], s)
    with open("/root/.vp/MANIFEST.schema.json") as f:
        jsonschema.validate(man, json.load(f))


if __name__ == "__main__":
    main()
