"""C++ declarations: records in namespaces and classes, single inheritance, methods,
static members, references, scoped enumerations, extern "C" blocks.  Every declared
name is distinct over the whole unit (see DESIGN.md, C19)."""
from hypothesis import strategies as st

SCALARS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long",
           "unsigned long", "long long", "unsigned long long", "float", "double", "char16_t", "wchar_t"]


class Gen:
    def __init__(self, draw, size):
        self.draw = draw
        self.n = 0
        self.size = size
        self.labels = set()
        self.complete = []      # (path, keyword, usable as a base)
        self.opaque = []        # declared only
        self.enums = []
        self.aliases = []       # (path, record path)
        self.forwards = []      # (name, keyword) declared at file scope, to be defined later
        self.path = ()

    def name(self, prefix):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def chance(self, k):
        """one in k"""
        return self.draw(st.integers(0, k - 1)) == 0

    def ref(self, path):
        """an expression that names the entity from the current scope"""
        full = "::".join(path)
        if self.chance(3):
            # as short as it can be: strip the enclosing scopes
            i = 0
            while i < len(path) - 1 and i < len(self.path) and path[i] == self.path[i]:
                i += 1
            if i:
                self.labels.add("relative-name")
            return "::".join(path[i:])
        return ("::" if self.chance(4) else "") + full

    # -- types -------------------------------------------------------------
    def value_type(self):
        c = self.draw(st.integers(0, 9))
        if c < 5:
            return self.pick(SCALARS)
        if c == 5 and self.enums:
            self.labels.add("enum-member")
            return self.ref(self.pick(self.enums))
        if c == 6 and self.aliases:
            self.labels.add("alias-member")
            return self.ref(self.pick(self.aliases)[0])
        if c >= 7 and self.complete:
            self.labels.add("nested-record")
            return self.ref(self.pick(self.complete)[0])
        return self.pick(SCALARS)

    def pointee(self):
        c = self.draw(st.integers(0, 5))
        known = [x[0] for x in self.complete] + [x[0] for x in self.opaque] + [(n,) for n, _ in self.forwards]
        if c < 3 and known:
            return self.ref(self.pick(known))
        if c == 3:
            return "void"
        return self.value_type()

    def declarator(self, name):
        """a data member or parameter, with its type"""
        c = self.draw(st.integers(0, 13))
        if c < 6:
            return "%s %s" % (self.value_type(), name)
        if c == 6:
            self.labels.add("array")
            return "%s %s[%d]" % (self.value_type(), name, self.draw(st.integers(1, 5)))
        if c == 7:
            self.labels.add("array")
            return "%s %s[%d][%d]" % (self.value_type(), name, self.draw(st.integers(1, 3)), self.draw(st.integers(1, 3)))
        if c in (8, 9):
            self.labels.add("pointer")
            return "%s%s *%s%s" % (self.pick(["", "", "const "]), self.pointee(), self.pick(["", "", "*", "const "]), name)
        if c == 10:
            self.labels.add("reference")
            t = self.pointee()
            if t == "void":
                t = "int"
            return "%s%s %s%s" % (self.pick(["", "const "]), t, self.pick(["&", "&", "&&"]), name)
        if c == 11:
            self.labels.add("function-pointer")
            return "%s (*%s)(%s)" % (self.pick(["void", "int", "char *", self.value_type()]), name, self.params(False))
        if c == 12:
            self.labels.add("reference")
            return "%s *&%s" % (self.pointee(), name)
        return "%s%s %s" % (self.pick(["const ", "volatile ", "mutable "]), self.pick(SCALARS), name)

    def params(self, named=True):
        ps = []
        for _ in range(self.draw(st.integers(0, 3))):
            n = self.name("p") if named else ""
            t = self.pick(["int", "bool", "double", "const char *", self.pointee().replace("void", "int") + " *",
                           self.value_type(), self.value_type() + " &"])
            ps.append(("%s %s" % (t, n)).strip())
        return ", ".join(ps)

    # -- records -----------------------------------------------------------
    def enum(self):
        n = self.name("E")
        scoped = self.pick(["", "class ", "struct "])
        under = self.pick(["", "", " : unsigned char", " : short", " : long long", " : unsigned", " : int"])
        if scoped or under:
            self.labels.add("typed-enum")
        lo = -3 if under in ("", " : short", " : long long", " : int") else 0
        vals = []
        for _ in range(self.draw(st.integers(1, 4))):
            v = self.name("V")
            if self.chance(2):
                v += " = %d" % self.draw(st.integers(lo, 120))
            vals.append(v)
        self.enums.append(self.path + (n,))
        return "enum %s%s%s { %s };" % (scoped, n, under, ", ".join(vals))

    def methods(self, cls):
        out = []
        c = self.draw(st.integers(0, 14))
        if c == 13 and not self.union:
            self.labels.add("virtual")
            out.append("virtual %s %s(%s)%s;" % (self.pick(["void", "int", "%s &" % cls]), self.name("m"), self.params(),
                                                 self.pick(["", " const", " = 0"]) if not self.final else ""))
            self.abstract = self.abstract or " = 0" in out[-1]
        elif c == 14:
            self.labels.add("template")
            out.append("template <class T> %s %s(T, %s);" % (self.pick(["void", "T", "T *"]), self.name("m"), self.params() or "int"))
        elif c == 0:
            out.append("%s(%s);" % (cls, self.pick(["", "int %s" % self.name("p"), "const %s &" % cls])))
            self.labels.add("constructor")
        elif c == 1 and ("~" + cls) not in self.done:
            self.done.add("~" + cls)
            out.append(self.pick(["~%s();", "~%s() {}"]) % cls)
            self.labels.add("destructor")
        elif c == 2:
            out.append("bool operator==(const %s &o) const;" % cls if self.chance(2) else "%s &operator=(const %s &o);" % (cls, cls))
        elif c == 3:
            out.append("static %s;" % self.static())
            self.labels.add("static-member")
        elif c == 4:
            out.append("static const int %s = %d;" % (self.name("k"), self.draw(st.integers(-9, 9))))
            self.labels.add("static-member")
        elif c == 5:
            out.append("friend %s %s;" % (self.pick(["class", "struct"]), self.name("Fr")))
        elif c == 6:
            out.append("friend int %s(%s &);" % (self.name("ff"), cls))
        elif c == 7:
            out.append("static_assert(sizeof(int) == 4, \"\");")
        elif c == 8:
            out.append("static int %s(%s);" % (self.name("sm"), self.params()))
        elif c == 9:
            out.append("int %s(%s) { struct %s { int a; char b; }; return sizeof(%s); }" % (self.name("m"), self.params(),
                                                                                        self.name("Lo"), "int"))
        else:
            out.append("%s %s(%s)%s;" % (self.pick(["void", "int", "const char *", "%s &" % cls]), self.name("m"), self.params(),
                                         self.pick(["", " const", " noexcept"])))
        self.labels.add("method")
        return out

    def static(self):
        return self.pick(["int %s", "char *%s", "double %s[4]"]) % self.name("s")

    def members(self, cls, union, depth):
        out, fields = [], 0
        for _ in range(self.draw(st.integers(0 if self.chance(6) else 1, self.size))):
            c = self.draw(st.integers(0, 19))
            if c < 11:
                d = self.declarator(self.name("f"))
                if union:
                    d = d.replace("mutable ", "")
                    while "&" in d and "(*" not in d:
                        d = "int %s" % self.name("f")
                elif self.chance(8) and "&" not in d and "[" not in d and "(" not in d and d.split()[0] in ("int", "long", "short"):
                    d += " = %d" % self.draw(st.integers(0, 99))
                    self.labels.add("default-initialiser")
                out.append(d + ";")
                fields += 1
            elif c < 14:
                out += self.methods(cls)
            elif c == 14 and not union:
                out.append(self.pick(["public:", "private:", "protected:", "public:"]))
                self.labels.add("access")
            elif c == 15 and depth < 2:
                # kept accessible: it may be named from outside
                body = self.record(depth + 1, member=True)
                out.append(body)
                self.labels.add("nested-class")
                fields += body.rstrip().endswith("/*m*/;")
            elif c == 16:
                out.append("public: " + self.enum())
            elif c == 17:
                self.labels.add("member-typedef")
                n = self.name("mt")
                t = self.value_type()
                out.append("typedef %s %s; %s %s;" % (t, n, n, self.name("f")) if self.chance(2)
                           else "using %s = %s; %s *%s;" % (n, t, n, self.name("f")))
                fields += 1
            elif c == 18:
                # members of an anonymous union or structure are those of the class
                self.labels.add("anonymous-member")
                inner = "; ".join("%s %s" % (self.pick(SCALARS), self.name("f")) for _ in range(self.draw(st.integers(1, 3))))
                out.append("%s { %s; };" % (self.pick(["union", "union", "struct"]), inner))
                fields += 1
            else:
                self.labels.add("unnamed-type")
                out.append("struct { %s %s; %s %s; } %s;" % (self.pick(SCALARS), self.name("f"), self.pick(SCALARS), self.name("f"),
                                                             self.name("f")))
                fields += 1
        return out, fields

    def record(self, depth=0, member=False, fwd=None):
        outer_done, self.done = getattr(self, "done", None), set()
        if fwd:
            n, kw = fwd
            if kw != "union" and self.chance(3):
                kw = {"struct": "class", "class": "struct"}[kw]
                self.labels.add("other-keyword")
        else:
            n, kw = self.name("T"), self.pick(["struct", "struct", "class", "class", "union"])
        base = ""
        bases = [x[0] for x in self.complete if x[2]]
        bases += [a for a, r in self.aliases if r in bases]
        if bases and kw != "union" and self.draw(st.integers(0, 2)) > 0:
            self.labels.add("base")
            base = " : %s%s" % (self.pick(["public ", "public ", "", "private ", "protected "]), self.ref(self.pick(bases)))
        final = " final" if not base and self.chance(12) else ""
        outer = self.path
        self.path = outer + (n,)
        before = (getattr(self, "union", False), getattr(self, "final", False), getattr(self, "abstract", False))
        self.union, self.final, self.abstract = kw == "union", bool(final), False
        # a pointer to itself
        self.opaque.append((outer + (n,), kw))
        body, fields = self.members(n, kw == "union", depth)
        self.path = outer
        self.done = outer_done
        self.opaque.remove((outer + (n,), kw))
        if kw == "class" and self.chance(2):
            body.insert(0, "public:")
        abstract = self.abstract
        self.union, self.final, self.abstract = before
        if abstract:
            # no object of it: only pointers to it
            self.labels.add("abstract")
            self.opaque.append((outer + (n,), kw))
            member = member and "abstract"
        else:
            self.complete.append((outer + (n,), kw, kw != "union" and not final))
        text = "%s %s%s%s { %s }" % (kw, n, final, base, " ".join(body))
        if member:
            text = "public: " + text
            if member != "abstract" and self.chance(2):
                return text + " %s/*m*/;" % self.name("f")
        return text + ";"

    # -- file and namespace scope --------------------------------------------
    def junk(self):
        """what has no counterpart in C"""
        known = [self.ref(x[0]) for x in self.complete] + ["int"]
        c = self.draw(st.integers(0, 13))
        t, n = self.pick(known), self.name("j")
        if c <= 1 and t != "int" and not self.in_c:
            self.labels.add("operator")
            return ["%s operator%s(const %s &, %s);" % (self.pick(["int", t, "bool"]), self.pick(["+", "<<", "==", "&&", "->*", "-", ","]),
                                                        t, self.pick(["int", "const %s &" % t]))]
        if c == 2 and not self.in_c:
            self.labels.add("template")
            return ["template <class T%s> T %s(T a, %s);" % (self.pick(["", ", int N = 3", ", class... R"]), n, t + " *")]
        if c <= 6 and not self.in_c:
            # used with one argument only: its classes would all have one name
            self.labels.add("class-template")
            self.complete.append((self.path + (n + "<%s>" % self.pick(["int", "char", "double", "const char *"]),), "struct", False))
            return ["template <class T> %s %s { %sT %s; T *%s; %s %s; };" % (
                self.pick(["struct", "class"]), n, self.pick(["", "public: "]), self.name("f"), self.name("f"),
                self.pick(SCALARS), self.name("f"))]
        if c == 7 and not self.in_c:
            self.labels.add("template")
            return ["template <class T> using %s = T *; %s<int> %s(%s<char>);" % (n, n, self.name("fn"), n)]
        if c == 8:
            self.labels.add("alias")
            return ["using %s = %s%s;" % (n, t, self.pick(["", " *", " &"]))]
        if c == 9:
            return ["static_assert(sizeof(%s) > 0, \"\");" % t]
        if c == 10:
            self.labels.add("lambda")
            return ["static auto %s = [](int a) { struct %s { int q; }; return a + 1; };" % (n, self.name("Lo"))]
        if c == 11:
            self.labels.add("overload")
            m = self.name("j") if self.in_c else n
            return ["int %s(%s *); int %s(%s *, int);" % (n, t, m, t)]
        if c == 12:
            self.labels.add("inline-function")
            return ["%s int %s(%s a, int b = 4) noexcept { return b + 2; }" % (self.pick(["inline", "static", "constexpr"]), n,
                                                                             self.pick(["int", "long"]))]
        return [self.pick(["[[deprecated]] int %s(void);", "auto %s(int) -> double;", "extern int %s; decltype(%s) *%s_p();" % (n, n, n),
                           "using %s = int (*)(char, %s *);" % (n, t), "typedef %s (*%s)(%s &);" % ("int", n, t)]).replace("%s", n)]

    def top(self, depth=0):
        c = self.draw(st.integers(0, 22))
        if c > 19:
            return self.junk()
        if c < 10:
            return [self.record()]
        if c < 13 and depth < 3:
            self.labels.add("namespace")
            style = self.pick(["namespace", "namespace", "namespace", "inline namespace", "anonymous"])
            outer = self.path
            if style == "anonymous":
                head = "namespace {"
            else:
                reopen = [p for p in self.spaces if p[:-1] == outer and self.chance(2)]
                n = reopen[0][-1] if reopen else self.name("ns")
                head = "%s %s {" % ("namespace" if reopen else style, n)
                self.path = outer + (n,)
                if not reopen:
                    self.spaces.append(self.path)
            body = []
            for _ in range(self.draw(st.integers(1, 3))):
                body += self.top(depth + 1)
            self.path = outer
            return [head] + body + ["}"]
        if c == 13:
            return [self.enum()]
        if c == 14 and self.complete:
            n = self.name("A")
            r = self.pick(self.complete)[0]
            self.labels.add("typedef")
            out = "typedef %s %s;" % (self.ref(r), n)
            self.aliases.append((self.path + (n,), r))
            return [out]
        if c == 15 and not self.path and not self.in_c:
            self.labels.add("extern-C")
            self.in_c = True
            body = []
            for _ in range(self.draw(st.integers(1, 3))):
                body += self.top(3) if self.chance(2) else self.function()
            self.in_c = False
            return ['extern "C" {'] + body + ["}"]
        if c == 16:
            return self.function()
        if c == 17:
            n, kw = self.name("T"), self.pick(["struct", "class", "union"])
            self.labels.add("forward")
            if depth == 0 and self.chance(2):
                self.forwards.append((n, kw))
            else:
                self.opaque.append((self.path + (n,), kw))
            return ["%s %s;" % (kw, n)]
        if c == 18 and self.chance(2):
            self.labels.add("unnamed-variable")
            return ["%s%s { %s } %s;" % (self.pick(["", "static ", "typedef "]), self.pick(["struct", "union"]),
                                         " ".join("%s %s;" % (self.pick(SCALARS), self.name("f"))
                                                  for _ in range(self.draw(st.integers(1, 3)))), self.name("v"))]
        if c == 18 and self.complete and self.chance(2):
            self.labels.add("record-variable")
            return ["extern %s %s;" % (self.ref(self.pick(self.complete)[0]), self.name("v"))]
        if c == 18:
            self.labels.add("variable")
            return ["%s %s = %d;" % (self.pick(["int", "const int", "static int", "constexpr long"]), self.name("v"),
                                     self.draw(st.integers(0, 99)))]
        return [self.record()]

    def function(self):
        self.labels.add("function")
        n = self.name("fn")
        ret = self.pick(["void", "int", "bool", "char *", "double"] + [self.pointee() + " *"])
        pre = 'extern "C" ' if not self.path and not self.in_c and self.chance(2) else ""
        return ["%s%s %s(%s);" % (pre, ret, n, self.params())]

    def unit(self, decls):
        self.spaces, self.in_c = [], False
        out = []
        for _ in range(decls):
            out.append("\n".join(self.top()))
            if self.forwards and self.chance(4):
                out.append(self.record(fwd=self.forwards.pop()))
        for f in self.forwards[:]:
            self.forwards.remove(f)
            out.append(self.record(fwd=f))
        return out


FLAGS = [[]] * 6 + [["-fshort-wchar"], ["-target", "i386-linux"], ["-target", "x86_64-w64-windows-gnu"], ["-std=c++20"],
                    ["-target", "arm-linux-gnueabi", "-fshort-enums"], ["-fno-short-wchar", "-std=gnu++11"], ["-target", "avr"]]


@st.composite
def programs(draw, max_decls=6, size=6, header=False):
    g = Gen(draw, draw(st.integers(2, size)))
    parts = g.unit(draw(st.integers(1, max_decls)))
    cut = draw(st.integers(int(header), len(parts))) if header or draw(st.integers(0, 2)) == 0 else 0
    head, src = ("\n".join(p) + "\n" if p else "" for p in (parts[:cut], parts[cut:]))
    return {"src": src, "header": head, "includes": draw(st.booleans()) if head else False,
            "flags": draw(st.sampled_from(FLAGS)), "labels": sorted(g.labels)}
