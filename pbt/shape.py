"""Do two generated modules define the same things?  A bisimulation over ctypes objects."""
import ctypes

from .env import require

FuncPtr = ctypes._CFuncPtr


class Same:
    def __init__(self):
        self.pairs = {}

    def type(self, a, b, path):
        if a is None or b is None:
            require(a is b, "%s: %r and %r", path, a, b)
            return
        if not isinstance(a, type) or not isinstance(b, type):
            require(not isinstance(a, type) and not isinstance(b, type), "%s: %r and %r", path, a, b)
            self.value(a, b, path)
            return
        if id(a) in self.pairs:
            require(self.pairs[id(a)][1] is b, "%s: %r is %r here and %r elsewhere", path, a.__name__, b.__name__,
                    self.pairs[id(a)][1].__name__)
            return
        self.pairs[id(a)] = (a, b)
        for base in (ctypes.Structure, ctypes.Union, ctypes.Array, ctypes._Pointer, FuncPtr, ctypes._SimpleCData):
            require(issubclass(a, base) == issubclass(b, base), "%s: %r and %r", path, a, b)
        if issubclass(a, ctypes._SimpleCData):
            require(a._type_ == b._type_ and ctypes.sizeof(a) == ctypes.sizeof(b), "%s: %r and %r", path, a, b)
            if hasattr(a, "_subtype_") or hasattr(b, "_subtype_"):
                self.type(getattr(a, "_subtype_", None), getattr(b, "_subtype_", None), path + "*")
        elif issubclass(a, ctypes.Array):
            require(a._length_ == b._length_, "%s: %d and %d elements", path, a._length_, b._length_)
            self.type(a._type_, b._type_, path + "[]")
        elif issubclass(a, ctypes._Pointer):
            self.type(a._type_, b._type_, path + "*")
        elif issubclass(a, FuncPtr):
            if callable(a._restype_) and not isinstance(a._restype_, type):
                require(callable(b._restype_) and not isinstance(b._restype_, type), "%s: %r and %r", path, a, b)
            else:
                self.function(a, b, path, "_restype_", "_argtypes_")
            if hasattr(a, "restype") or hasattr(b, "restype"):
                # a placeholder function
                self.attrs(a, b, path)
        elif issubclass(a, (ctypes.Structure, ctypes.Union)):
            require(a.__name__ == b.__name__, "%s: record %s and %s", path, a.__name__, b.__name__)
            require(ctypes.sizeof(a) == ctypes.sizeof(b), "%s: size %d and %d", path, ctypes.sizeof(a), ctypes.sizeof(b))
            fa, fb = getattr(a, "_fields_", None), getattr(b, "_fields_", None)
            require((fa is None) == (fb is None), "%s: only one has fields", path)
            require([x[0] for x in fa or ()] == [x[0] for x in fb or ()], "%s: fields %r and %r", path, fa, fb)
            require(list(getattr(a, "_anonymous_", ())) == list(getattr(b, "_anonymous_", ())), "%s: anonymous members", path)
            for x, y in zip(fa or (), fb or ()):
                p = "%s.%s" % (path, x[0])
                require(list(x[2:]) == list(y[2:]), "%s: %r and %r", p, x, y)
                da, db = getattr(a, x[0]), getattr(b, y[0])
                require((getattr(da, "offset", None), getattr(da, "size", None)) ==
                        (getattr(db, "offset", None), getattr(db, "size", None)), "%s: %r and %r", p, da, db)
                self.type(x[1], y[1], p)
            require([x.__name__ for x in a.__mro__] == [x.__name__ for x in b.__mro__], "%s: bases", path)

    def function(self, a, b, path, res="restype", args="argtypes"):
        self.type(getattr(a, res, None), getattr(b, res, None), path + "()")
        x, y = getattr(a, args, None), getattr(b, args, None)
        require((x is None) == (y is None) and len(x or ()) == len(y or ()), "%s: arguments %r and %r", path, x, y)
        for i, (p, q) in enumerate(zip(x or (), y or ())):
            self.type(p, q, "%s(%d)" % (path, i))

    def attrs(self, a, b, path):
        ra, rb = a.__dict__.get("restype"), b.__dict__.get("restype")
        self.type(ra, rb, path + "()") if isinstance(ra, type) or ra is None else None
        x, y = a.__dict__.get("argtypes"), b.__dict__.get("argtypes")
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            require(isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y),
                    "%s: arguments %r and %r", path, x, y)
            for i, (p, q) in enumerate(zip(x, y)):
                self.type(p, q, "%s(%d)" % (path, i))

    def value(self, a, b, path):
        if isinstance(a, type) or isinstance(b, type):
            require(isinstance(a, type) and isinstance(b, type), "%s: %r and %r", path, a, b)
            self.type(a, b, path)
        elif isinstance(a, (list, tuple)):
            require(type(a) is type(b) and len(a) == len(b), "%s: %r and %r", path, a, b)
            for i, (x, y) in enumerate(zip(a, b)):
                self.value(x, y, "%s[%d]" % (path, i))
        elif isinstance(a, FuncPtr):
            require(isinstance(b, FuncPtr), "%s: %r and %r", path, a, b)
            require(a.__name__ == b.__name__ if hasattr(a, "__name__") else True, "%s: %r and %r", path, a, b)
            self.function(a, b, path)
        elif isinstance(a, (ctypes.Structure, ctypes.Union, ctypes.Array, ctypes._Pointer, ctypes._SimpleCData)):
            self.type(type(a), type(b), path)
            if not isinstance(a, ctypes._Pointer):
                require(bytes(a) == bytes(b), "%s: %r and %r", path, bytes(a), bytes(b))
        else:
            require(type(a) is type(b) and repr(a) == repr(b), "%s: %r and %r", path, a, b)


def same_modules(a, b, what="module"):
    """every exported name of either is defined alike in both"""
    require(a["__all__"] == b["__all__"], "%s: export lists differ: %s", what,
            sorted(set(a["__all__"]) ^ set(b["__all__"])) or "repetitions")
    s = Same()
    for n in a["__all__"]:
        require((n in a) == (n in b), "%s: %s is defined in one only", what, n)
        if n in a:
            s.value(a[n], b[n], n)
    return s


def same_names(a, b, names, what="module"):
    s = Same()
    for n in names:
        require(n in a and n in b, "%s: %s is not defined", what, n)
        s.value(a[n], b[n], n)
    return s
