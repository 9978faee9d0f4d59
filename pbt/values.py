"""Values for ctypes types, chosen by a list of integers, and what reading them back must give."""
import ctypes
import struct

from .env import require

FuncPtr = ctypes._CFuncPtr
SMALL = (0, 1, 2, 127, 128, 255, 256, 32767, 65535, 2 ** 31 - 1)


class Rnd:
    """a deterministic stream of choices made from the integers of the case"""

    def __init__(self, ints):
        self.ints, self.i, self.n = list(ints) or [0], 0, 0

    def next(self):
        v = self.ints[self.i % len(self.ints)]
        # later rounds see other values
        v = v + 7919 * (self.i // len(self.ints)) * (self.i + 1) if self.i >= len(self.ints) else v
        self.i += 1
        return v

    def below(self, n):
        return self.next() % n

    def pick(self, seq):
        return seq[self.below(len(seq))]


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def integer(r, size, signed):
    bits = 8 * size
    k, raw = r.below(4), r.next()
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if k == 0:
        return min(hi, SMALL[raw % len(SMALL)])
    if k == 1:
        return (lo, hi, hi - 1, lo + 1, hi // 2)[raw % 5]
    v = raw * 0x9E3779B97F4A7C15 & ((1 << bits) - 1)
    return v - (1 << bits) if signed and v > hi else v


def floating(r, single):
    v = (0.0, 1.0, -1.5, 0.1, 1e10, -2.5e-8, 3.0e30, float(r.next() % 10007) / 8)[r.below(8)]
    return f32(v) if single else v


def simple(t, r):
    c = t._type_
    if c == "?":
        return bool(r.below(2))
    if c == "c":
        return bytes([r.below(256)])
    if c == "u":
        return chr(r.pick([97, 0xe9, 0x4e2d, 48]))
    if c in "fdg":
        return floating(r, c == "f")
    if c == "P":
        return r.pick([None, 4096, 2 ** 47 - 8, 123456789])
    if c in "zZ":
        return None
    return integer(r, ctypes.sizeof(t), c in "bhilqn")


def is_padding(name, owner):
    """members that C does not have: owner is the set of the names the C source uses"""
    return name.startswith("PADDING_") and name[8:].isdigit() and name not in owner


def members(cls, cnames=()):
    return [f for f in getattr(cls, "_fields_", ()) if not is_padding(f[0], cnames)]


def make(t, r, keep, depth=0):
    """(argument, expectation)"""
    if issubclass(t, ctypes._SimpleCData):
        v = simple(t, r)
        return v, ("v", v)
    if issubclass(t, ctypes._Pointer):
        if depth > 3 or r.below(3) == 0:
            return r.pick([None, t()]), ("ptr", 0)
        try:
            o = t._type_()
        except TypeError:
            return None, ("ptr", 0)
        keep.append(o)
        return t(o), ("ptr", ctypes.addressof(o))
    if issubclass(t, FuncPtr):
        return t(), ("fn", 0)
    if issubclass(t, ctypes.Array):
        if issubclass(t._type_, ctypes._SimpleCData) and t._type_._type_ == "c":
            b = bytes([r.below(255) + 1 for _ in range(r.below(t._length_ + 1) if r.below(2) else t._length_)])
            return b, ("bytes", b)  # a member that is a char array takes bytes only
        if issubclass(t._type_, ctypes._SimpleCData) and t._type_._type_ == "u":
            s = "".join(r.pick("ab\u00e9") for _ in range(t._length_))
            return s, ("v", s)
        els = [make(t._type_, r, keep, depth + 1) for _ in range(t._length_)]
        # arrays of character arrays take arrays, not bytes
        args = tuple(t._type_(*[bytes([x]) for x in a]) if isinstance(a, bytes) and issubclass(t._type_, ctypes.Array) else
                     (t._type_(*a) if isinstance(a, str) and issubclass(t._type_, ctypes.Array) else a) for a, _ in els)
        exp = ("arr", [e for _, e in els])
        return (args if args and r.below(2) else t(*args)), exp
    if issubclass(t, ctypes.Union):
        ms = members(t)
        if not ms:
            return t(), ("union", None, None)
        m = r.pick(ms)
        a, e = make(m[1], r, keep, depth + 1)
        u = t()
        setattr(u, m[0], a)
        return u, ("union", m[0], e)
    if issubclass(t, ctypes.Structure):
        ms = members(t)
        args, exp = [], {}
        for m in ms:
            a, e = (bitvalue(m, r) if len(m) > 2 else make(m[1], r, keep, depth + 1))
            args.append(a)
            exp[m[0]] = e
        if args and r.below(2):
            return tuple(args), ("rec", exp)
        o = t()
        for m, a in zip(ms, args):
            setattr(o, m[0], a)
        return o, ("rec", exp)
    raise TypeError("no values for %r" % t)


def bitvalue(m, r):
    t, w = m[1], m[2]
    if t._type_ == "?":
        v = bool(r.below(2))
        return v, ("v", v)
    signed = t._type_ in "bhilqn"
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    v = r.pick([lo, hi, 0, min(1, hi), lo + (r.next() * 2654435761 % (hi - lo + 1))])
    return v, ("v", v)


def zero(t, depth=0):
    """the expectation of an untouched member"""
    if issubclass(t, ctypes._SimpleCData):
        return ("v", t().value)
    if issubclass(t, ctypes._Pointer):
        return ("ptr", 0)
    if issubclass(t, FuncPtr):
        return ("fn", 0)
    if issubclass(t, ctypes.Array):
        if issubclass(t._type_, ctypes._SimpleCData) and t._type_._type_ == "c":
            return ("bytes", b"")
        if issubclass(t._type_, ctypes._SimpleCData) and t._type_._type_ == "u":
            return ("v", "")
        return ("arr", [zero(t._type_)] * t._length_)
    if issubclass(t, ctypes.Union):
        return ("union", None, None)
    return ("rec", {m[0]: zero(m[1]) for m in members(t)})


def check(got, exp, path):
    """what attribute access gave"""
    k = exp[0]
    if k == "v":
        v = getattr(got, "value", got) if isinstance(got, ctypes._SimpleCData) else got
        require(v == exp[1] and (type(v) is type(exp[1]) or v is None or isinstance(v, (int, float))),
                "%s: %r was stored, reading gives %r", path, exp[1], v)
    elif k == "bytes":
        if not isinstance(got, bytes):
            got = bytes(got).split(b"\0")[0]
        require(got == exp[1], "%s: %r was stored, reading gives %r", path, exp[1], got)
    elif k == "ptr":
        if exp[1] == 0:
            require(not got, "%s: a null pointer was stored, reading gives %r", path, got)
        else:
            require(bool(got) and ctypes.addressof(got.contents) == exp[1], "%s: pointer to another object", path)
    elif k == "fn":
        require(bool(got) == bool(exp[1]), "%s: function pointer is %r", path, got)
    elif k == "arr":
        require(len(got) == len(exp[1]), "%s: %d elements, expected %d", path, len(got), len(exp[1]))
        for i, e in enumerate(exp[1]):
            check(got[i], e, "%s[%d]" % (path, i))
    elif k == "union":
        if exp[1] is not None:
            check(getattr(got, exp[1]), exp[2], "%s.%s" % (path, exp[1]))
    else:
        for n, e in exp[1].items():
            check(getattr(got, n), e, "%s.%s" % (path, n))


def check_dict(got, exp, cls, path, cnames=()):
    """what dictionary conversion gave; cls is the type of the member"""
    k = exp[0]
    if k in ("v", "fn"):
        check(got, exp, path)
    elif k == "bytes":
        if isinstance(got, list):
            got = b"".join(got).split(b"\0")[0]
        check(got, exp, path)
    elif k == "ptr":
        if exp[1] and isinstance(got, ctypes._Pointer) and ctypes.addressof(got) == exp[1]:
            pass
        elif isinstance(got, ctypes._Pointer):
            check(got, exp, path)  # the elements of an array stay pointers
        elif exp[1] == 0:
            require(got is None, "%s: a null pointer became %r", path, got)
        else:
            require(got is not None, "%s: pointer became None", path)
            if isinstance(got, (ctypes.Structure, ctypes.Union, ctypes.Array, ctypes._SimpleCData, ctypes._Pointer)):
                require(ctypes.addressof(got) == exp[1], "%s: pointer to another object", path)
    elif k == "arr":
        require(isinstance(got, list) and len(got) == len(exp[1]), "%s: %r is not a list of %d", path, got, len(exp[1]))
        for i, e in enumerate(exp[1]):
            check_dict(got[i], e, cls._type_, "%s[%d]" % (path, i))
    else:
        require(type(got) is dict, "%s: %r is not a dictionary", path, got)
        want = [m[0] for m in members(cls, cnames)]
        require(sorted(got) == sorted(want), "%s: has the keys %s, the members are %s", path, sorted(got), sorted(want))
        types = {m[0]: m[1] for m in members(cls, cnames)}
        if k == "union":
            if exp[1] is not None:
                check_dict(got[exp[1]], exp[2], types[exp[1]], "%s.%s" % (path, exp[1]))
        else:
            for n, e in exp[1].items():
                check_dict(got[n], e, types[n], "%s.%s" % (path, n))
