"""Values between Python and compiled C: which parts (leaves) an object of a C type has,
C code that copies them to and from a buffer, and Python code that does the same
through the generated classes."""
import ctypes
import json
import math
import os
import signal
import struct
import subprocess

from .env import HarnessError, Violation, require
from .layout import ARRAYS, FUNCS, is_anon

from clang.cindex import CursorKind as CK, TypeKind as K

INTK = {K.SCHAR: 1, K.SHORT: 1, K.INT: 1, K.LONG: 1, K.LONGLONG: 1, K.UCHAR: 0, K.USHORT: 0, K.UINT: 0, K.ULONG: 0, K.ULONGLONG: 0}
CNAME = {(1, 1): "signed char", (2, 1): "short", (4, 1): "int", (8, 1): "long long",
         (1, 0): "unsigned char", (2, 0): "unsigned short", (4, 0): "unsigned int", (8, 0): "unsigned long long"}


class Leaf:
    """one scalar: kind, C expression, Python path, size in the buffer, place in the buffer"""
    __slots__ = ("kind", "c", "py", "n", "size", "at")

    def __init__(self, kind, c, py, size, n=8):
        self.kind, self.c, self.py, self.size, self.n = kind, c, py, size, n


def leaves(ct, c, py, r, out, limit=80):
    """append the leaves of an object of type ct; unions: one member, chosen by r"""
    ct = ct.get_canonical()
    k = ct.kind
    if len(out) > limit:
        return
    size = ct.get_size()
    if k in INTK:
        out.append(Leaf("s" if INTK[k] else "u", c, py, size))
    elif k == K.BOOL:
        out.append(Leaf("b", c, py, 1))
    elif k in (K.CHAR_S, K.CHAR_U):
        out.append(Leaf("c", c, py, 1))
    elif k in (K.FLOAT, K.DOUBLE, K.LONGDOUBLE):
        out.append(Leaf({K.FLOAT: "f", K.DOUBLE: "d", K.LONGDOUBLE: "g"}[k], c, py, size))
    elif k in (K.INT128, K.UINT128):
        out.append(Leaf("x", c, py, 16, 16))
    elif k == K.POINTER:
        out.append(Leaf("p", c, py, size))
    elif k == K.ENUM:
        neg = any(x.enum_value < 0 for x in ct.get_declaration().get_children() if x.kind == CK.ENUM_CONSTANT_DECL)
        out.append(Leaf("s" if neg else "u", c, py, size))
    elif k == K.CONSTANTARRAY:
        e, n = ct.get_array_element_type().get_canonical(), ct.get_array_size()
        if e.kind in (K.CHAR_S, K.CHAR_U) and n > 0:
            out.append(Leaf("C", c, py, n, n))
        elif n > 12:
            for i in (0, 1, n // 2, n - 1):
                leaves(e, "%s[%d]" % (c, i), py + [i], r, out, limit)
        else:
            for i in range(n):
                leaves(e, "%s[%d]" % (c, i), py + [i], r, out, limit)
    elif k == K.RECORD:
        d = ct.get_declaration()
        fs = [f for f in ct.get_fields() if not (f.is_bitfield() and not f.spelling)]
        if d.kind == CK.UNION_DECL and fs:
            fs = [r.pick(fs)]
        for f in fs:
            if f.type.get_canonical().kind in ARRAYS and f.type.get_canonical().get_size() <= 0:
                continue
            if not f.spelling or "(" in f.spelling:
                leaves(f.type, c, py, r, out, limit)
            else:
                leaves(f.type, "%s.%s" % (c, f.spelling), py + [f.spelling], r, out, limit)
    else:
        raise HarnessError("no leaves for %s" % ct.spelling)


def place(ls, at=0):
    for l in ls:
        l.at = at
        at += (l.n + 7) // 8 * 8
    return at


def c_read(ls, buf):
    """C statements: object -> buffer"""
    out = []
    for l in ls:
        k, dst = l.kind, "%s + %d" % (buf, l.at)
        if k in "sc":
            s = "long long t = (long long)%s; memcpy(%s, &t, 8);" % ("(signed char)" + l.c if k == "c" else l.c, dst)
        elif k in "ub":
            s = "unsigned long long t = (unsigned long long)%s; memcpy(%s, &t, 8);" % (l.c, dst)
        elif k in "fdg":
            s = "double t = (double)%s; memcpy(%s, &t, 8);" % (l.c, dst)
        elif k == "p":
            s = "void *t = (void *)%s; memcpy(%s, &t, 8);" % (l.c, dst)
        elif k == "x":
            s = "__int128 t = (__int128)%s; memcpy(%s, &t, 16);" % (l.c, dst)
        else:
            s = "memcpy(%s, (const void *)%s, %d);" % (dst, l.c, l.n)
        out.append("{ %s }" % s)
    return "\n  ".join(out)


def c_write(ls, buf):
    """C statements: buffer -> object"""
    out = []
    for l in ls:
        k, src = l.kind, "%s + %d" % (buf, l.at)
        obj = "(void *)&%s" % l.c
        if k in "scub":
            ty = "_Bool" if k == "b" else CNAME[l.size, 0 if k == "u" else 1]
            s = "long long t; memcpy(&t, %s, 8); %s v = (%s)t; memcpy(%s, &v, sizeof v);" % (src, ty, ty, obj)
        elif k in "fdg":
            ty = {"f": "float", "d": "double", "g": "long double"}[k]
            s = "double t; memcpy(&t, %s, 8); %s v = (%s)t; memcpy(%s, &v, %s);" % (src, ty, ty, obj, "10" if k == "g" else "sizeof v")
        elif k == "p":
            s = "memcpy(%s, %s, 8);" % (obj, src)
        else:
            s = "memcpy(%s, %s, %d);" % (obj if k == "x" else "(void *)%s" % l.c, src, l.n)
        out.append("{ %s }" % s)
    return "\n  ".join(out)


# -- values --------------------------------------------------------------------

def choose(l, r):
    from . import values
    k = l.kind
    if k in "su":
        return values.integer(r, l.size, k == "s")
    if k == "b":
        return r.below(2)
    if k == "c":
        return r.below(256)
    if k in "fdg":
        return values.floating(r, k == "f")
    if k == "p":
        return r.pick([0, 4096, 0x7fffdeadbee8, 8 + 16 * r.below(2 ** 40)])
    if k == "x":
        return [r.below(256) for _ in range(16)]
    n = r.below(l.n + 1) if r.below(2) else l.n
    return [r.below(255) + 1 for _ in range(n)]


def encode(l, v):
    """the bytes of the buffer"""
    k = l.kind
    if k in "sub":
        return struct.pack("<q" if k == "s" else "<Q", v)
    if k == "c":
        return struct.pack("<q", v - 256 if v > 127 else v)
    if k in "fdg":
        return struct.pack("<d", v)
    if k == "p":
        return struct.pack("<Q", v)
    return bytes(v).ljust(l.n, b"\0")


def show(l, raw):
    k = l.kind
    if k in "sc":
        return struct.unpack("<q", raw[:8])[0]
    if k in "ubp":
        return struct.unpack("<Q", raw[:8])[0]
    if k in "fdg":
        return struct.unpack("<d", raw[:8])[0]
    return raw.hex()


def same(l, raw, v):
    want = encode(l, v)
    if l.kind == "C":
        # what follows the end of the string is not Python's
        return raw[:len(v)] == want[:len(v)] and (len(v) == l.n or raw[len(v)] == 0)
    return raw == want


def plain(l, v):
    """the value as Python code would write it (l is a scalar)"""
    k = l.kind
    if k == "c":
        return bytes([v])
    if k == "b":
        return bool(v)
    return v


def py_set(root, l, v):
    """store v through attribute and index access; root is the object"""
    obj = root
    for s in l.py[:-1]:
        obj = getattr(obj, s) if isinstance(s, str) else obj[s]
    last = l.py[-1]
    cur = getattr(obj, last) if isinstance(last, str) else obj[last]
    k = l.kind
    if k == "x":
        cur[:] = list(v)
        return
    if k == "C":
        if isinstance(cur, ctypes.Array):
            cur.value = bytes(v)
            return
        v = bytes(v)
    elif k == "p" and cur is not None and not isinstance(cur, int):
        v = ctypes.cast(v, type(cur))
    else:
        v = plain(l, v)
    if isinstance(last, str):
        setattr(obj, last, v)
    else:
        obj[last] = v


def py_get(root, l):
    obj = root
    for s in l.py:
        obj = getattr(obj, s) if isinstance(s, str) else obj[s]
    return obj


def address(p):
    if p is None:
        return 0
    if isinstance(p, int):
        return p
    return ctypes.cast(p, ctypes.c_void_p).value or 0


def py_same(got, l, v):
    """is got, read in Python, the value v?"""
    k = l.kind
    if k == "x":
        return bytes(got) == bytes(v)
    if k == "C":
        return (got if isinstance(got, bytes) else got.value) == bytes(v)
    if k == "p":
        return address(got) == v
    return got == plain(l, v) and not isinstance(got, ctypes._SimpleCData)


# -- compiled code -------------------------------------------------------------

def compile_lib(cc, src, so):
    c = so[:-3] + "_impl.c"
    with open(c, "w") as f:
        f.write(src)
    p = subprocess.run([cc, "-w", "-shared", "-fPIC", "-O1", "-fno-strict-aliasing", "-o", so, c], capture_output=True, text=True)
    if p.returncode != 0:
        raise HarnessError("%s: %s\n%s" % (cc, p.stderr[:1500], src))


def in_child(func, limit=60):
    """run func in a forked child, which may crash; its Violation is raised here"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            signal.alarm(limit)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                res = ["ok", func()]
            except Violation as e:
                res = ["violation", str(e)]
            except HarnessError as e:
                res = ["harness", str(e)]
            except BaseException as e:
                import traceback
                res = ["violation", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])]
            with os.fdopen(wr, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    _, st = os.waitpid(pid, 0)
    if not text:
        raise Violation("the calls ended the process (status %d)" % st)
    k, v = json.loads(text)
    if k == "violation":
        raise Violation(v)
    if k == "harness":
        raise HarnessError(v)
    return v


# -- which records the host's ctypes passes by value as C does ---------------------

def by_value(ct):
    """Records that ctypes can pass and return by value when their padding is spelled
    out (see known findings): naturally laid out, no unions, no long double or
    __int128, and in records of up to 16 bytes no arrays of arrays and no 8-byte unit
    that holds only floating members and padding."""
    ct = ct.get_canonical()
    size, align = ct.get_size(), ct.get_align()
    if size <= 0 or align > 8 or size > 4096:
        return False
    spans = []
    if not scalars(ct, 0, spans, size <= 16):
        return False
    if size > 16:
        return True
    for u in range(0, size, 8):
        inside = [(o, n, f) for o, n, f in spans if u <= o < u + 8]
        used = sum(n for _, n, _ in inside)
        if all(f for _, _, f in inside) and used < min(8, size - u):
            return False
    return True


def scalars(ct, off, spans, small):
    ct = ct.get_canonical()
    k = ct.kind
    if k == K.RECORD:
        d = ct.get_declaration()
        if d.kind == CK.UNION_DECL:
            return False
        for f in ct.get_fields():
            if f.is_bitfield():
                return False
            if f.type.get_canonical().kind in ARRAYS and f.type.get_canonical().get_size() <= 0:
                return False
            o = ct.get_declaration().type.get_offset(f.spelling) if f.spelling and "(" not in f.spelling else None
            if o is None:
                o = f.get_field_offsetof()
            if o % 8 or not scalars(f.type, off + o // 8, spans, small):
                return False
        return True
    if k == K.CONSTANTARRAY:
        e, n = ct.get_array_element_type(), ct.get_array_size()
        if n > 600 or small and e.get_canonical().kind == K.CONSTANTARRAY:
            return False
        return all(scalars(e, off + i * e.get_size(), spans, small) for i in range(n))
    size = ct.get_size()
    if k in (K.LONGDOUBLE, K.INT128, K.UINT128) or size <= 0 or off % size:
        return False
    spans.append((off, size, k in (K.FLOAT, K.DOUBLE)))
    return True


def scalar(ct):
    """may be a parameter or a result as a Python value"""
    k = ct.get_canonical().kind
    return k in INTK or k in (K.BOOL, K.CHAR_S, K.CHAR_U, K.FLOAT, K.DOUBLE, K.LONGDOUBLE, K.POINTER, K.ENUM)


def finite(v):
    return not isinstance(v, float) or math.isfinite(v)


def libffi_limit(params, hidden):
    """index of the first parameter (clang types, None: a pointer) that libffi's x86-64 call passes wrongly: the first half
    of a record of an integer and a floating half takes the last integer register, and its copy spills over the first
    floating register (all 16 bytes are copied), or None"""
    gpr, sse = int(hidden), 0
    for i, ct in enumerate(params):
        ct = ct.get_canonical() if ct is not None else None
        if ct is None or ct.kind != K.RECORD:
            if ct is not None and ct.kind in (K.FLOAT, K.DOUBLE):
                sse += 1
            elif ct is None or ct.kind != K.LONGDOUBLE:
                gpr += 1
            continue
        size, spans = ct.get_size(), []
        if size > 16 or not scalars(ct, 0, spans, True):
            continue
        units = [all(f for o, _, f in spans if u <= o < u + 8) for u in range(0, size, 8)]
        if gpr + units.count(False) > 6 or sse + units.count(True) > 8:
            continue
        if units == [False, True] and gpr == 5 and sse:
            return i
        gpr += units.count(False)
        sse += units.count(True)
    return None
