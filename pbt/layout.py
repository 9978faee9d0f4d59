"""Oracle for types: an independent walk over libclang's view of the same source,
compared with what the generated ctypes classes actually do (descriptors, sizes and
memory probes)."""
import ctypes

from .env import Discard, Violation, oracle, require

from clang.cindex import CursorKind, Index, TranslationUnit, TypeKind

K = TypeKind

SIGNED = {K.SCHAR, K.SHORT, K.INT, K.LONG, K.LONGLONG}
UNSIGNED = {K.UCHAR, K.USHORT, K.UINT, K.ULONG, K.ULONGLONG}
CHARS = {K.CHAR_S, K.CHAR_U}
FLOATS = {K.FLOAT, K.DOUBLE, K.LONGDOUBLE}
INT128 = {K.INT128, K.UINT128}
ARRAYS = {K.CONSTANTARRAY, K.INCOMPLETEARRAY, K.VARIABLEARRAY}
FUNCS = {K.FUNCTIONPROTO, K.FUNCTIONNOPROTO}

HOST_PTR = ctypes.sizeof(ctypes.c_void_p)


def parse(src, flags=(), name="oracle.c", extra=None, discard=False, options=0):
    """discard: the unit may be invalid for this target; that is then not a case"""
    with oracle("libclang parse"):
        unsaved = [(name, src)] + list((extra or {}).items())
        tu = Index.create().parse(name, args=list(flags), unsaved_files=unsaved,
                                  options=TranslationUnit.PARSE_SKIP_FUNCTION_BODIES | options)
        bad = [d for d in tu.diagnostics if d.severity > 2]
        if bad and discard:
            raise Discard("not valid C for this target")
        if bad:
            raise RuntimeError("generated C is not valid: %s\n%s" % (bad[0], src))
    return tu


def py_prefix(cursor):
    return {CursorKind.STRUCT_DECL: "struct_", CursorKind.UNION_DECL: "union_",
            CursorKind.CLASS_DECL: "class_"}[cursor.kind]


def is_anon(decl):
    return decl.is_anonymous() or decl.spelling == "" or "(" in decl.spelling


def simple_code(t):
    c = getattr(t, "_type_", None)
    return c if isinstance(c, str) else None


def describe(t):
    if t is None:
        return "None"
    try:
        return "%s(size %d)" % (t.__name__, ctypes.sizeof(t))
    except Exception:
        return repr(t)


class Walker:
    """compare(clang type, ctypes type)"""

    def __init__(self, ns, ptr_size=HOST_PTR, wchar_char=True):
        self.ns = ns
        self.ptr = ptr_size
        self.seen = {}
        self.records = 0
        self.fields = 0
        self.bitfields = 0
        self.functions = 0
        self.anon = 0
        self.padded = 0
        # records whose members are still to be compared: a chain of them may be longer than the stack
        self.waiting = []
        self.busy = False

    # -- types -------------------------------------------------------------
    def type(self, ct, py, path):
        ct = ct.get_canonical()
        k = ct.kind
        if k == K.VOID:
            require(py is None, "%s: void became %r", path, py)
            return
        if k in ARRAYS:
            n = ct.get_array_size() if k == K.CONSTANTARRAY else 0
            if n < 0 < ct.get_size():
                # libclang's sign extension
                n = ct.get_size() // ct.get_array_element_type().get_size()
            n = max(n, 0)
            require(isinstance(py, type) and issubclass(py, ctypes.Array), "%s: %s became %s, not an array",
                    path, ct.spelling, describe(py))
            require(py._length_ == n, "%s: %s became an array of %d", path, ct.spelling, py._length_)
            self.type(ct.get_array_element_type(), py._type_, path + "[]")
            return
        if k in (K.POINTER, K.LVALUEREFERENCE, K.RVALUEREFERENCE):
            self.pointer(ct, py, path)
            return
        require(isinstance(py, type), "%s: %s became %r", path, ct.spelling, py)
        if k in FUNCS:
            # a function type (not a pointer to it) has no value: its prototype is what counts
            self.function_pointer(ct, py, path)
            return
        if k == K.RECORD:
            self.record(ct, py, path)
            return
        size = ct.get_size()
        if k == K.ENUM:
            self.enum(ct, py, path)
            return
        require(ctypes.sizeof(py) == size, "%s: %s (size %d) became %s", path, ct.spelling, size, describe(py))
        code = simple_code(py)
        if k == K.BOOL:
            require(code == "?", "%s: %s became %s", path, ct.spelling, describe(py))
        elif k in SIGNED:
            require(code in tuple("bhilq"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k in UNSIGNED:
            require(code in tuple("BHILQ"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k == K.CHAR_S:
            require(code == "c", "%s: %s became %s", path, ct.spelling, describe(py))
        elif k == K.CHAR_U:
            require(code in ("c", "B"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k in (K.FLOAT, K.DOUBLE):
            require(code in ("f", "d", "g"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k == K.LONGDOUBLE:
            if size == ctypes.sizeof(ctypes.c_longdouble):
                require(code in ("g", "d"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k in INT128:
            pass
        elif k == K.CHAR16:
            require(code in ("H", "u"), "%s: %s became %s", path, ct.spelling, describe(py))
        elif k == K.WCHAR:
            # c_wchar has the size of the host's wchar_t
            require(code in ("u", "H"), "%s: %s became %s", path, ct.spelling, describe(py))
        else:
            raise Violation("%s: oracle does not know %s" % (path, ct.spelling))

    def pointer(self, ct, py, path):
        pointee = ct.get_pointee().get_canonical()
        require(isinstance(py, type), "%s: pointer became %r", path, py)
        require(ctypes.sizeof(py) == self.ptr, "%s: pointer of %d bytes became %s", path, self.ptr, describe(py))
        if pointee.kind in FUNCS:
            if self.ptr != HOST_PTR:
                py = getattr(py, "_subtype_", None)
                require(isinstance(py, type), "%s: the pointer does not know its function type", path)
            self.function_pointer(pointee, py, path)
            return
        if self.ptr != HOST_PTR:
            # emulated pointer: an unsigned integer of pointer size which knows its target
            require(simple_code(py) in ("H", "L", "Q", "I"), "%s: emulated pointer is %s", path, describe(py))
            sub = getattr(py, "_subtype_", "absent")
            if pointee.kind == K.VOID:
                require(sub in (None, type(None)), "%s: void * became pointer to %r", path, sub)
            else:
                require(sub != "absent", "%s: the pointer does not know its target", path)
                self.type(pointee, sub, path + "*")
            return
        if pointee.kind == K.VOID:
            require(py is ctypes.c_void_p, "%s: void * became %s", path, describe(py))
            return
        require(issubclass(py, ctypes._Pointer), "%s: %s became %s", path, ct.spelling, describe(py))
        self.type(pointee, py._type_, path + "*")

    def function_pointer(self, ft, py, path):
        require(issubclass(py, ctypes._CFuncPtr), "%s: function pointer became %s", path, describe(py))
        self.type(ft.get_result(), py._restype_, path + "()")
        args = list(ft.argument_types()) if ft.kind == K.FUNCTIONPROTO else []
        got = list(py._argtypes_)
        require(len(got) == len(args), "%s: function pointer with %d arguments has %d", path, len(args), len(got))
        for i, (a, g) in enumerate(zip(args, got)):
            self.argument(a, g, "%s(%d)" % (path, i))

    def function(self, c):
        name = c.spelling
        require(name in self.ns, "function %s is not defined", name)
        f = self.ns[name]
        require(hasattr(f, "restype") and hasattr(f, "argtypes"), "function %s is %r", name, f)
        with oracle():
            ft = c.type.get_canonical()
            args = list(ft.argument_types()) if ft.kind == K.FUNCTIONPROTO else []
        self.functions += 1
        self.type(ft.get_result(), f.restype, name + "()")
        got = f.argtypes
        require(got is not None, "function %s has no argument types", name)
        got = list(got)
        require(len(got) == len(args), "function %s with %d arguments has %d", name, len(args), len(got))
        for i, (a, g) in enumerate(zip(args, got)):
            if a.kind in ARRAYS:
                raise Violation("oracle: argument %d of %s not decayed" % (i, name))
            self.argument(a, g, "%s(%d)" % (name, i))

    def argument(self, ct, py, path):
        self.type(ct, py, path)

    # -- enums -------------------------------------------------------------
    def enum(self, ct, py, path):
        with oracle():
            decl = ct.get_declaration()
            vals = [c.enum_value for c in decl.get_children() if c.kind == CursorKind.ENUM_CONSTANT_DECL]
            size = ct.get_size()
            neg = any(v < 0 for v in vals)
        require(ctypes.sizeof(py) == size, "%s: enum of %d bytes became %s", path, size, describe(py))
        code = simple_code(py)
        require(code in (tuple("bhilq") if neg else tuple("BHILQ")),
                "%s: enum %s became %s", path, ct.spelling, describe(py))

    # -- records -----------------------------------------------------------
    def record(self, ct, py, path):
        decl = ct.get_declaration()
        usr = decl.get_usr()
        if is_anon(decl) or not usr:
            usr = "%s@%s" % (usr, decl.location.offset)
        require(issubclass(py, (ctypes.Structure, ctypes.Union)), "%s: %s became %s", path, ct.spelling, describe(py))
        is_union = decl.kind == CursorKind.UNION_DECL
        require(issubclass(py, ctypes.Union) == is_union, "%s: %s became %s", path, ct.spelling, py.__mro__)
        if is_anon(decl):
            # nothing names it: each member declared with it may have its own class
            usr = "%s=%s" % (usr, py.__name__)
        if usr in self.seen:
            require(self.seen[usr] is py, "%s: two different classes for %s: %s and %s",
                    path, ct.spelling, self.seen[usr].__name__, py.__name__)
            return
        for u, other in self.seen.items():
            require(other is not py or u.split("=")[0] == usr.split("=")[0], "%s: one class %s for two types (%s and %s)", path, py.__name__, u, usr)
        self.seen[usr] = py
        if not is_anon(decl):
            name = py_prefix(decl) + decl.spelling
            require(self.ns.get(name) is py, "%s: %s is %r, not the class %s", path, name,
                    self.ns.get(name), py.__name__)
        size = ct.get_size()
        if size < 0:
            require(ctypes.sizeof(py) == 0, "%s: incomplete %s has size %d", path, ct.spelling, ctypes.sizeof(py))
            require(not getattr(py, "_fields_", None), "%s: incomplete %s has fields", path, ct.spelling)
            return
        self.records += 1
        require(ctypes.sizeof(py) == size, "%s: sizeof(%s) is %d in C, %d in Python", path, ct.spelling,
                size, ctypes.sizeof(py))
        self.waiting.append((ct, py, path, size))
        if self.busy:
            return
        self.busy = True
        try:
            while self.waiting:
                self.members(*self.waiting.pop())
        finally:
            self.busy = False

    def members(self, ct, py, path, size):
        expected = []
        covered = 0
        for f in ct.get_fields():
            self.field(f, py, 0, expected, path, py)
            if not f.is_bitfield():
                covered += max(f.type.get_size(), 0)
        got = [f[0] for f in vars(py).get("_fields_", ()) if not f[0].startswith("PADDING_")]
        require(got == expected, "%s: fields of %s are %r, expected %r", path, ct.spelling, got, expected)
        if covered < size:
            self.padded += 1

    def field(self, f, owner, base, expected, path, top):
        """owner: the class whose _fields_ holds it; top: the class users access it by"""
        with oracle():
            off = f.get_field_offsetof()
            fdecl = f.type.get_canonical().get_declaration()
            name = f.spelling
            anon_member = f.type.get_canonical().kind == K.RECORD and \
                (name == "" or "(" in name) and not f.is_bitfield()
        if anon_member:
            self.anon += 1
            # C11 anonymous member: its members must be reachable by their own name
            idx = len([e for e in expected if e.startswith("\0")])
            anon_names = list(vars(owner).get("_anonymous_", ()))
            require(idx < len(anon_names), "%s: anonymous member missing (%r)", path, anon_names)
            pyname = anon_names[idx]
            sub = dict((x[0], x[1]) for x in owner._fields_).get(pyname)
            require(sub is not None, "%s: anonymous member %s has no field", path, pyname)
            require(getattr(owner, pyname).offset * 8 == off, "%s: anonymous member at bit %d, C says %d", path,
                    getattr(owner, pyname).offset * 8, off)
            self.type(f.type, sub, path + "." + pyname)
            for g in f.type.get_canonical().get_fields():
                self.reach(g, sub, base + off, path, top)
            expected.append("\0" + pyname)
            expected[-1] = _Anon(pyname)
            return
        if f.is_bitfield():
            width = f.get_bitfield_width()
            if name == "":
                # unnamed padding bits: either absent, or a field users never see
                i = len(expected)
                names = [x[0] for x in owner._fields_ if not x[0].startswith("PADDING_")]
                if i < len(names) and names[i].startswith("_") and names[i][1:].isdigit():
                    expected.append(names[i])
                return
            self.bitfields += 1
            expected.append(name)
            self.bitfield(f, name, base + off, width, top, path)
            return
        self.fields += 1
        expected.append(name)
        fields = dict((x[0], x) for x in getattr(owner, "_fields_", ()))
        require(name in fields, "%s: no field %r (has %r)", path, name, list(fields))
        require(len(fields[name]) == 2, "%s: plain member %s became a bit field %r", path, name, fields[name])
        self.plain(f, name, base + off, top, path)
        self.type(f.type, fields[name][1], path + "." + name)

    def reach(self, g, sub, base, path, top):
        """member of an anonymous member, seen through the outer class"""
        with oracle():
            off = g.get_field_offsetof()
            name = g.spelling
        if g.type.get_canonical().kind == K.RECORD and (name == "" or "(" in name) and not g.is_bitfield():
            for h in g.type.get_canonical().get_fields():
                self.reach(h, None, base + off, path, top)
        elif g.is_bitfield():
            if name:
                self.bitfield(g, name, base + off, g.get_bitfield_width(), top, path)
        else:
            self.plain(g, name, base + off, top, path)

    def plain(self, f, name, off, top, path):
        d = getattr(top, name, None)
        require(d is not None and hasattr(d, "offset"), "%s: %s is not a field of %s", path, name, top.__name__)
        size = max(f.type.get_size(), 0)
        if f.type.get_canonical().kind in (K.LVALUEREFERENCE, K.RVALUEREFERENCE):
            size = self.ptr
        require(d.offset * 8 == off, "%s.%s: at byte %d, C says bit %d", path, name, d.offset, off)
        require(d.size == size, "%s.%s: occupies %d bytes, C says %d", path, name, d.size, size)

    def bitfield(self, f, name, off, width, top, path):
        """memory probe: exactly the bits [off, off+width) belong to the field"""
        require(hasattr(top, name), "%s: no bit field %s", path, name)
        ct = f.type.get_canonical()
        size = ctypes.sizeof(top)
        mask = ((1 << width) - 1) << off
        full = (1 << (8 * size)) - 1
        obj = top()
        is_bool = ct.kind == K.BOOL
        if ct.kind == K.ENUM:
            signed = any(c.enum_value < 0 for c in ct.get_declaration().get_children())
        else:
            signed = ct.kind in SIGNED or ct.kind in CHARS and ct.kind == K.CHAR_S
        is_char = ct.kind in CHARS

        def raw():
            return int.from_bytes(bytes(obj), "little")

        def put(v):
            ctypes.memmove(ctypes.byref(obj), v.to_bytes(size, "little"), size)

        pats = [(1 << width) - 1, 0x5a5a5a5a5a5a5a5a & ((1 << width) - 1), 1]
        for p in pats:
            for bg in (0, full & ~mask):
                put(bg | (p << off))
                got = getattr(obj, name)
                if isinstance(got, bytes):
                    got = got[0]
                if is_bool:
                    want = bool(p)
                elif signed and p >> (width - 1):
                    want = p - (1 << width)
                else:
                    want = p
                ok = got == want or (is_char and got == p)
                require(ok, "%s.%s: bits %d..%d hold %d, Python reads %r (C: %d)", path, name, off, off + width - 1,
                        p, got, want)
                put(bg)
                setattr(obj, name, want)
                require(raw() == bg | (p << off), "%s.%s: writing %d changed bits %x, C says bits %d..%d", path,
                        name, want, raw() ^ bg, off, off + width - 1)


class _Anon(str):
    """field name of an anonymous member (kept distinct for counting)"""
    def startswith(self, p, *a):
        return p == "\0" or str.startswith(self, p, *a)


def top_level(tu):
    with oracle():
        return [c for c in tu.cursor.get_children() if c.location.file is not None]


def walk_unit(ns, tu, ptr_size=HOST_PTR):
    """check every record, enum, typedef and function the unit declares"""
    w = Walker(ns, ptr_size)
    last = {}
    for c in top_level(tu):
        if c.kind == CursorKind.FUNCTION_DECL:
            last[c.spelling] = c
        else:
            check_decl(w, c)
    for c in last.values():
        # the last declaration has the composite type
        check_decl(w, c)
    return w


def check_decl(w, c):
    check_one(w, c)
    if c.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL) and not is_anon(c):
        nested_enums(w, c)


def check_one(w, c):
    """this declaration alone"""
    ns = w.ns
    if c.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL):
        if is_anon(c):
            return
        name = py_prefix(c) + c.spelling
        require(name in ns, "record %s has no class %s", c.type.spelling, name)
        w.record(c.type.get_canonical(), ns[name], name)
    elif c.kind == CursorKind.TYPEDEF_DECL:
        require(c.spelling in ns, "typedef %s is not defined", c.spelling)
        w.type(c.underlying_typedef_type, ns[c.spelling], c.spelling)
    elif c.kind == CursorKind.ENUM_DECL:
        check_enum(w, c)
    elif c.kind == CursorKind.FUNCTION_DECL:
        w.function(c)


def nested_enums(w, c):
    for d in c.get_children():
        if d.kind == CursorKind.ENUM_DECL:
            check_enum(w, d)
        elif d.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL):
            if is_anon(d):
                nested_enums(w, d)
            else:
                check_decl(w, d)


def check_enum(w, c):
    ns = w.ns
    if c.get_definition() is None or c.get_definition() != c:
        return
    seen, names = {}, {}
    for v in c.get_children():
        if v.kind != CursorKind.ENUM_CONSTANT_DECL:
            continue
        require(v.spelling in ns, "enum constant %s is not defined", v.spelling)
        require(ns[v.spelling] == v.enum_value and isinstance(ns[v.spelling], int),
                "enum constant %s is %r, C says %d", v.spelling, ns[v.spelling], v.enum_value)
        seen[v.enum_value] = v.spelling
        names[v.spelling] = v.enum_value
    if not is_anon(c):
        require(c.spelling in ns, "enum %s has no type", c.spelling)
        w.enum(c.type, ns[c.spelling], c.spelling)
        table = ns.get(c.spelling + "__enumvalues")
        require(isinstance(table, dict) and set(table) == set(seen), "%s__enumvalues is %r, expected values %r",
                c.spelling, table, sorted(seen))
        for val, nm in table.items():
            require(nm in names and names[nm] == val, "%s__enumvalues maps %d to %r", c.spelling, val, nm)


class CppWalker(Walker):
    """the same for C++: names of any scope, base classes, fixed enumerations"""

    bases = 0

    def enum(self, ct, py, path):
        with oracle():
            decl = ct.get_declaration()
            neg = any(c.enum_value < 0 for c in decl.get_children() if c.kind == CursorKind.ENUM_CONSTANT_DECL)
            under = decl.enum_type.get_canonical().kind
            size = ct.get_size()
        require(ctypes.sizeof(py) == size, "%s: enum of %d bytes became %s", path, size, describe(py))
        code = simple_code(py)
        ok = tuple("bhilq") if neg else tuple("BHILQ")
        if under in SIGNED or under == K.CHAR_S:
            ok += tuple("bhilq")
        require(code in ok, "%s: enum %s became %s", path, ct.spelling, describe(py))

    def record(self, ct, py, path):
        n = self.records
        super().record(ct, py, path)
        if self.records == n:
            return
        for b in base_types(ct):
            # the one base is at the beginning
            bdecl = b.get_declaration()
            name = py_prefix(bdecl) + bdecl.spelling
            bpy = self.ns.get(name)
            require(isinstance(bpy, type), "%s: base class %s is not defined", path, name)
            require(issubclass(py, bpy) and py is not bpy, "%s: %s does not derive from %s but %r", path, py.__name__, name,
                    [x.__name__ for x in py.__mro__])
            self.record(b, bpy, path + ":" + name)
            self.bases += 1
            while True:
                names = []
                for f in b.get_fields():
                    self.field(f, bpy, 0, names, path, py)
                up = base_types(b)
                if not up:
                    break
                b = up[0]
                bpy = self.ns.get(py_prefix(b.get_declaration()) + b.get_declaration().spelling)
                require(isinstance(bpy, type) and issubclass(py, bpy), "%s: %s does not derive from %s", path, py.__name__, b.spelling)


def base_types(ct):
    with oracle():
        d = ct.get_declaration().get_definition()
        if d is None:
            return []
        return [c.type.get_canonical() for c in d.get_children() if c.kind == CursorKind.CXX_BASE_SPECIFIER]


RECORDS = (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL)


def cpp_declarations(cursor):
    """every declaration of the unit, of whatever scope"""
    for c in cursor.get_children():
        if c.kind in (CursorKind.NAMESPACE, CursorKind.LINKAGE_SPEC, CursorKind.UNEXPOSED_DECL):
            yield from cpp_declarations(c)
            continue
        yield c
        if c.kind in RECORDS:
            yield from cpp_declarations(c)


def cpp_representable(tu):
    """why a class of the unit cannot be a ctypes class (or None): ctypes lays the members of a
    derived class behind the whole of the base"""
    for c in cpp_declarations(tu.cursor):
        if c.kind not in RECORDS or not c.is_definition():
            continue
        bs = base_types(c.type.get_canonical())
        if not bs:
            continue
        size = bs[0].get_size()
        first = [f.get_field_offsetof() for f in c.type.get_canonical().get_fields()]
        if first and min(first) < 8 * size:
            return "members of a class in the padding of its base"
        if c.type.get_size() < size:
            return "class smaller than its base"
    return "base needs its derived class" if _cyclic(tu) else None


def _named(ct, by_value):
    """records that a type names: (declaration usr, by value)"""
    ct = ct.get_canonical()
    if ct.kind in ARRAYS:
        return _named(ct.get_array_element_type(), by_value)
    if ct.kind in (K.POINTER, K.LVALUEREFERENCE, K.RVALUEREFERENCE):
        return _named(ct.get_pointee(), False)
    if ct.kind in FUNCS:
        out = list(_named(ct.get_result(), False))
        for a in ct.argument_types():
            out += _named(a, False)
        return out
    return [(ct, by_value)] if ct.kind == K.RECORD else []


def _cyclic(tu):
    """ctypes wants the fields of a base before the class statement of the derived one, and the
    class statement of whatever the fields point at before the fields"""
    graph = {}

    def add(ct):
        usr = ct.get_declaration().get_usr()
        if ("body", usr) in graph:
            return
        head, body = graph.setdefault(("head", usr), set()), graph.setdefault(("body", usr), set())
        body.add(("head", usr))
        for b in base_types(ct):
            head.add(("body", b.get_declaration().get_usr()))
            add(b)
        for f in ct.get_fields():
            for t, by_value in _named(f.type, True):
                body.add(("body" if by_value else "head", t.get_declaration().get_usr()))
                add(t)
    for c in cpp_declarations(tu.cursor):
        if c.kind in RECORDS:
            add(c.type.get_canonical())
    state = {}

    def visit(n):
        if state.get(n) == 1:
            return True
        if n in state:
            return False
        state[n] = 1
        found = any(visit(m) for m in graph.get(n, ()))
        state[n] = 2
        return found
    return any(visit(n) for n in list(graph))


def walk_cpp(ns, tu, only=None, ptr_size=HOST_PTR):
    """only: look at the declarations of this file alone"""
    w = CppWalker(ns, ptr_size)
    last = {}
    for c in cpp_declarations(tu.cursor):
        if c.location.file is None or only and c.location.file.name != only:
            continue
        if c.kind in RECORDS:
            if is_anon(c) or c.semantic_parent is None:
                continue
            if c.get_definition() is not None and not c.is_definition():
                continue
            if c.semantic_parent.kind in (CursorKind.CXX_METHOD, CursorKind.CONSTRUCTOR):
                continue
            name = py_prefix(c) + c.spelling
            if c.get_definition() is None and name not in ns:
                # only declared: a class of it is made where something uses it
                continue
            require(name in ns, "record %s has no class %s", c.type.spelling, name)
            require(name in ns["__all__"], "class %s is not exported", name)
            w.record(c.type.get_canonical(), ns[name], name)
        elif c.kind == CursorKind.ENUM_DECL:
            check_enum(w, c)
            for v in c.get_children():
                if v.kind == CursorKind.ENUM_CONSTANT_DECL:
                    require(v.spelling in ns["__all__"], "enumerator %s is not exported", v.spelling)
        elif c.kind == CursorKind.TYPEDEF_DECL and c.semantic_parent.kind not in RECORDS:
            check_one(w, c)
            require(c.spelling in ns["__all__"], "typedef %s is not exported", c.spelling)
        elif (c.kind == CursorKind.VAR_DECL and c.semantic_parent.kind not in RECORDS and c.type.get_canonical().kind == K.RECORD
              and c.type.get_declaration().kind == CursorKind.STRUCT_DECL):
            # the value of a variable that is a record is its class
            require(c.spelling in ns, "variable %s is not defined", c.spelling)
            require(c.spelling in ns["__all__"], "variable %s is not exported", c.spelling)
            w.record(c.type.get_canonical(), ns[c.spelling], c.spelling)
        elif c.kind == CursorKind.FUNCTION_DECL and c.semantic_parent.kind not in RECORDS and c.spelling.isidentifier():
            last.setdefault(c.spelling, {})[c.get_usr()] = c
    for overloads in last.values():
        for i, c in enumerate(overloads.values()):
            try:
                check_one(w, c)
                require(c.spelling in ns["__all__"], "function %s is not exported", c.spelling)
                break
            except Violation:
                # one of the overloaded functions
                if i == len(overloads) - 1:
                    raise
    return w
