"""What a selected declaration needs: an independent dependency closure over libclang cursors.

Entities are keyed by their python name.  need(name) gives (required, allowed): the named records and
enumerations it needs through any type constructor, and in addition the typedefs its spelled types go through."""
import re

from clang.cindex import CursorKind as CK, TypeKind as TK

from . import layout
from .env import oracle

KIND = {CK.STRUCT_DECL: "s", CK.UNION_DECL: "u", CK.ENUM_DECL: "e", CK.TYPEDEF_DECL: "t", CK.FUNCTION_DECL: "f",
        CK.VAR_DECL: "d"}


class Unit:
    def __init__(self, tu, main=None):
        """main: predicate on cursors, which of the declarations may be selected (default: all)"""
        self.kind = {}       # (kind, name) -> cursor: what can be selected
        self.uses = {}       # (kind, name) -> (required keys, allowed keys)
        self.enumerators = {}  # enum key -> names
        self.main = main or (lambda c: True)
        with oracle("closure"):
            for c in layout.top_level(tu):
                self.add(c)

    def key(self, c):
        k = KIND[c.kind]
        if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL):
            if layout.is_anon(c):
                return (k, "@%s:%d" % (c.location.file, c.location.offset))
            return (k, layout.py_prefix(c) + c.spelling)
        if c.kind == CK.ENUM_DECL and layout.is_anon(c):
            return (k, "@%s:%d" % (c.location.file, c.location.offset))
        return (k, c.spelling)

    def add(self, c):
        if c.kind not in KIND:
            return
        k = self.key(c)
        self.kind.setdefault(k, c)
        req, alw = self.uses.setdefault(k, (set(), set()))
        if c.kind in (CK.STRUCT_DECL, CK.UNION_DECL):
            d = c.get_definition() or c
            self.record(d, req, alw)
        elif c.kind == CK.ENUM_DECL:
            d = c.get_definition() or c
            self.enumerators[k] = [v.spelling for v in d.get_children() if v.kind == CK.ENUM_CONSTANT_DECL]
        elif c.kind == CK.TYPEDEF_DECL:
            self.type(c.underlying_typedef_type, req, alw)
        elif c.kind == CK.FUNCTION_DECL:
            self.type(c.type, req, alw)
            for a in c.get_arguments():
                self.type(a.type, req, alw)
        else:
            self.type(c.type, req, alw)

    def record(self, d, req, alw):
        for f in d.get_children():
            if f.kind == CK.FIELD_DECL:
                self.type(f.type, req, alw)
            elif f.kind in (CK.STRUCT_DECL, CK.UNION_DECL, CK.ENUM_DECL):
                # declared in here: an entity of its own, and part of this one
                self.add(f)
                alw.add(self.key(f))
                if f.kind != CK.ENUM_DECL and f.is_anonymous():
                    req.add(self.key(f))

    def type(self, t, req, alw):
        k = t.kind
        if k == TK.TYPEDEF:
            d = t.get_declaration()
            alw.add(("t", d.spelling))
            if ("t", d.spelling) not in self.uses:
                self.add(d)
            self.type(d.underlying_typedef_type, req, alw)
        elif k in (TK.ELABORATED,):
            n = t.get_named_type()
            self.type(n, req, alw)
        elif k in (TK.RECORD, TK.ENUM):
            d = t.get_declaration()
            req.add(self.key(d))
            if self.key(d) not in self.uses:
                self.add(d)
        elif k == TK.POINTER:
            self.type(t.get_pointee(), req, alw)
        elif k in (TK.CONSTANTARRAY, TK.INCOMPLETEARRAY, TK.VARIABLEARRAY, TK.DEPENDENTSIZEDARRAY):
            self.type(t.get_array_element_type(), req, alw)
        elif k == TK.FUNCTIONPROTO:
            self.type(t.get_result(), req, alw)
            for a in t.argument_types():
                self.type(a, req, alw)
        elif k == TK.FUNCTIONNOPROTO:
            self.type(t.get_result(), req, alw)
        else:
            # __typeof__(x), __typeof__(T)
            alw.update(("t", w) for w in re.findall(r"\w+", t.spelling) if ("t", w) in self.kind)
            c = t.get_canonical()
            if c.kind != k:
                self.type(c, req, alw)

    def names(self, keys):
        out = set()
        for k in keys:
            if not k[1].startswith("@"):
                out.add(k[1])
            out.update(self.enumerators.get(k, ()))
        return out

    def close(self, selected, allowed=False):
        seen, todo = set(), list(selected)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            req, alw = self.uses.get(k, ((), ()))
            todo += list(req)
            if allowed:
                todo += list(alw)
        return seen

    def universe(self):
        return self.names(set(self.kind) | set(self.uses))


class References:
    """which declarations the text of a declaration names, over a C++ unit with distinct names"""

    def __init__(self, tu, mine=None):
        """mine: predicate on cursors, which declarations are the own ones"""
        self.mine, self.own = mine or (lambda c: True), set()
        self.of = {}        # spelling -> spellings that its text names
        self.kinds = {}     # spelling -> letter
        with oracle("references"):
            self.visit(tu.cursor, [])

    LETTER = {CK.FUNCTION_DECL: "f", CK.VAR_DECL: "d", CK.ENUM_DECL: "e", CK.TYPEDEF_DECL: "t"}

    def visit(self, c, owners):
        for x in c.get_children():
            mine = owners
            if x.spelling and x.kind.is_declaration() and x.kind not in (CK.NAMESPACE, CK.LINKAGE_SPEC, CK.UNEXPOSED_DECL):
                for o in owners:
                    self.of.setdefault(o, set()).add(x.spelling)
                self.of.setdefault(x.spelling, set())
                if self.mine(x):
                    self.own.add(x.spelling)
                if x.kind in self.LETTER and x.semantic_parent is not None and x.semantic_parent.kind not in (
                        CK.FUNCTION_DECL, CK.CXX_METHOD, CK.CONSTRUCTOR, CK.FUNCTION_TEMPLATE):
                    self.kinds.setdefault(x.spelling, self.LETTER[x.kind])
                mine = owners + [x.spelling]
            names = {x.spelling} | set(re.findall(r"[A-Za-z_]\w*", x.type.spelling)) | set(
                re.findall(r"[A-Za-z_]\w*", x.type.get_canonical().spelling))
            if x.referenced is not None:
                names.add(x.referenced.spelling)
            for o in mine:
                self.of.setdefault(o, set()).update(names)
            self.visit(x, mine)

    def words(self, n):
        """the C++ names in the name of a class"""
        return set(re.findall(r"[A-Za-z]+[0-9]+", n))

    def kind(self, n, value):
        if n in self.kinds:
            return self.kinds[n]
        if isinstance(value, type):
            p = n.split("_")[0]
            return {"struct": "sc", "class": "sc", "union": "u"}.get(p)
        return None

    def reach(self, names):
        """words of all that the selected names lead to; None: everything"""
        # operators have no words
        todo = [w for n in names for w in [n, *self.words(n)]]
        if any("inputDOTcpp" in n for n in names):
            return None
        seen = set()
        while todo:
            w = todo.pop()
            if w not in seen:
                seen.add(w)
                todo += self.of.get(w, ())
        return seen
