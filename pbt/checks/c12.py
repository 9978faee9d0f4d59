"""C12: comments, docstrings and locations are decoration."""
import io
import os
import re
import contextlib

from .. import cgen, cgraph, closure, cmacro, cpp, cvar, env, layout, shape
from ..core import Check
from clang.cindex import CursorKind as CK
from hypothesis import strategies as st

BITS = ["word", "two words", "\"", "'", "\"\"\"", "'''", "\\", "\\n", "\\x", "\\N{x}", "\\u12", "%s", "%d", "{}", "{0}", "{x}",
        "# hash", "#define X", "@param a the a", "\\brief b", "\\return c", "@code", "<b>t</b>", "\t", "  ", "a" * 90, "\u00e9\u4e2d",
        "\x0c", "*", "/ *", "//", "coding: foo", "-*- coding: latin-1 -*-", "import os", "):", "]", "}", "$(x)", "`y`", "\u2028",
        "end.", "class struct_x:", "__all__ = []", "\x85", "\x1c", "\r", "&amp;", "|", "None"]
FILES = ["input"] * 8 + ["in put", "q'uote", "b\\ack", "t\"\"\"q", "100%s", "{0}", "\u00e9", "n\\new", "u\\u00", "h#a", "end\\", "d\"q",
         "n" * 120, "n" * 240]


def comment(draw):
    bits = [draw(st.sampled_from(BITS)) for _ in range(draw(st.integers(0, 6)))]
    form = draw(st.sampled_from(["/**", "/**", "/*!", "/*", "///", "//!", "//", "/**<", "///<"]))
    text = ""
    for b in bits:
        text += b + draw(st.sampled_from([" ", " ", "\n", "\n * ", ""]))
    if form.startswith("//"):
        lines = text.replace("\r", " ").split("\n")
        return "\n".join("%s %s" % (form, re.sub(r"[\\\s]+$", "", l)) for l in lines) + "\n"
    return "%s %s%s*/%s" % (form, text.replace("*/", "* /").rstrip("\\"), draw(st.sampled_from([" ", "\n "])),
                            draw(st.sampled_from(["\n", "\n", " "])))


def sprinkle(draw, src, n):
    """insert comments at places where C allows them: line ends, after ; and { and , outside of strings"""
    lines = src.split("\n")
    spots = []
    for i, l in enumerate(lines):
        if l.lstrip().startswith("#"):
            spots.append((i, len(l)))
            m = re.match(r"\s*#\s*define\s+\w+(?=\s)", l)
            if m:
                # between the name and the replacement
                spots += [(i, m.end())] * 2
            continue
        spots.append((i, 0))
        instr = False
        for j, ch in enumerate(l):
            if ch in "\"'":
                instr = True           # keep away from literals altogether
            if not instr and ch in ";{,(" and l[j:j + 3] != "{ }" and "operator" not in l[max(0, j - 12):j]:
                spots.append((i, j + 1))
    for _ in range(n):
        i, j = draw(st.sampled_from(spots))
        c = comment(draw)
        if lines[i].lstrip().startswith("#"):
            c = " " + c.replace("\n", " ").strip()
            if c.count("*/") > 1:
                continue
            if j < len(lines[i]):
                m = re.match(r"\s*#\s*define\s+\w+(?=\s)", lines[i])
                if m and m.end() == j and c.startswith(" /*"):
                    lines[i] = lines[i][:j] + c + lines[i][j:]
                continue
            lines[i] = lines[i].split(" //")[0] + c if not c.strip().startswith("//") and " //" not in lines[i] \
                else lines[i] + ("" if " //" in lines[i] else c)
            continue
        lines[i] = lines[i][:j] + c + lines[i][j:]
        spots = [(a, b) for a, b in spots if (a, b) != (i, j) and not (a == i and b > j)]
        if not spots:
            break
    return "\n".join(lines)


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    k = draw(st.sampled_from(["graph", "prog", "prog", "vars", "macros", "c++"]))
    flags = []
    if k == "graph":
        src = "\n".join(draw(cgraph.graphs(8 if big else 5))["decls"]) + "\n"
    elif k == "prog":
        src = draw(cgen.programs(cgen.Opts(functions=True, max_decls=9 if big else 6)))[1]
    elif k == "c++":
        u = draw(cpp.programs(6 if big else 4, 4))
        src, flags = u["header"] + u["src"], u["flags"]
    elif k == "macros":
        src = "\n".join(draw(cmacro.macro_sets(6, garbage=False))["lines"]) + "\nint fn_m(int);\n"
        # one line each
        src = re.sub(r"\\[ \t]*\n", "", src)
    else:
        src = draw(cvar.units(5))["src"]
    if draw(st.booleans()):
        src = "\n".join(l if "'" in l or '"' in l or l.lstrip().startswith("#") else l.replace("; ", ";\n") for l in src.split("\n"))
    src = sprinkle(draw, src, draw(st.integers(0, 9)))
    if draw(st.integers(0, 3)) == 0:
        lines = src.split("\n")
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(lines)))
            lines.insert(i, "")
        src = "\n".join(lines)
    if draw(st.integers(0, 9)) == 0:
        # far down in the file
        n = draw(st.sampled_from([100, 126, 254, 255, 300, 1000, 65530]))
        src = "\n" * n + src
    if draw(st.integers(0, 9)) == 0:
        src = src.replace("\n", "\r\n")
    opts = {o: draw(st.booleans()) for o in ("comments", "doc", "locations")}
    extra = draw(st.sampled_from([[], [], ["-v"], ["-q"], ["--debug"]]))
    return {"src": src, "opts": opts, "extra": extra, "kinds": "cdefmstu" if k == "macros" else draw(st.sampled_from([None, "cdefmstu"])),
            "name": draw(st.sampled_from(FILES)), "lib": draw(st.integers(0, 5)) == 0, "labels": [k], "flags": flags}


class C12(Check):
    id = "C12"
    rule = ("a case counts when at least one of comment, docstring, location or verbose output is on and the source has a "
            "comment, a function or an unusual file name; distinct by source text and options")
    quick, thorough = 2800, 50000
    assumptions = ["file names without line breaks; two modules are compared object by object, not as text"]

    def strategy(self, tier):
        return cases(tier)

    def enumerate(self, tier):
        out = []
        src = "/** c */ struct s { int a; /**< x */ };\n/** f */ int f(struct s *p, int q);\nint *g(void (*cb)(int));\n"
        for f in FILES:
            out.append({"src": src, "opts": {"comments": True, "doc": True, "locations": True}, "extra": ["-v"], "kinds": None,
                        "name": f, "lib": False, "labels": ["file-name"]})
        return out

    def run(self, case):
        self.flags, self.plus = case.get("flags", []), "c++" in case["labels"]
        ext = ".cpp" if self.plus else ".c"
        tu = layout.parse(case["src"], self.flags, name="oracle" + ext, discard=self.plus)
        on = {k for k, v in case["opts"].items() if v}
        err = io.StringIO()
        with env.case_dir() as d:
            p = os.path.join(d, case["name"] + ext)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(case["src"])
            texts = []
            for o in ({}, case["opts"]):
                argv = env.options_argv(kinds=case["kinds"], flags=self.flags, extra=case["extra"] if o else (),
                                        libs=["c"] if case["lib"] else (), **o) + [p]
                with contextlib.redirect_stderr(err):
                    r = env.run_main(argv, os.path.join(d, "out.py"))
                env.require(r.rc == 0 and r.exc is None, "not translated with %s: %s", o, (r.tb or "")[-1200:])
                texts.append(r.text)
            self.from_file(os.path.join(d, "out.py"))
        plain, rich = env.load(texts[0]), env.load(texts[1])
        shape.same_modules(plain, rich, "with %s" % "+".join(sorted(on)))
        labels = set(case["labels"]) | on | set(case["extra"])
        self.locations(case, tu, p, texts[1], on)
        if "comments" in on:
            labels |= self.comments(case, tu, texts[1])
        if "doc" in on:
            self.docstrings(tu, p, rich)
        commented = "/*" in case["src"] or "//" in case["src"]
        if commented:
            labels.add("comments-in-source")
        if case["name"] != "input":
            labels.add("file-name")
        fns = any(c.kind == CK.FUNCTION_DECL for c in layout.top_level(tu))
        return bool((on or case["extra"]) and (commented or fns or case["name"] != "input")), labels

    def from_file(self, path):
        """python must accept the file itself (encoding declarations are comments, too)"""
        with open(path, "rb") as f:
            raw = f.read()
        try:
            compile(raw, "out.py", "exec")
        except Exception as e:
            raise env.Violation("the generated file is not a python module: %s: %s" % (type(e).__name__, e))

    def locations(self, case, tu, path, text, on):
        if "locations" not in on:
            return
        got = set()
        for l in text.split("\n"):
            s = l.strip()
            for sep in (":", " "):
                if s.startswith("# " + path + sep) and s[len("# " + path + sep):].isdigit():
                    got.add(int(s[len("# " + path + sep):]))
        with env.oracle():
            want, may = set(), set()
            u = None if self.plus else closure.Unit(tu)
            kinds = case["kinds"] or "cdefstu"

            def walk(c):
                may.add(c.location.line)
                for x in c.get_children():
                    walk(x)
            fdecl = {}
            if self.plus:
                walk(tu.cursor)
                got.discard(0)
            for c in layout.top_level(tu) if not self.plus else ():
                walk(c)
                if c.kind in (CK.MACRO_DEFINITION, CK.MACRO_INSTANTIATION):
                    continue
                if c.kind in closure.KIND and closure.KIND[c.kind] in kinds and not layout.is_anon(c):
                    k = u.key(c)
                    fdecl.setdefault(k, set()).add((c.get_definition() or c).location.line
                                                   if c.kind not in (CK.FUNCTION_DECL, CK.VAR_DECL) else c.location.line)
            macros = set()
            if "m" in kinds:
                tu2 = layout.parse(case["src"], self.flags, name="oracle" + (".cpp" if self.plus else ".c"), options=1)
                macros = {c.location.line for c in tu2.cursor.get_children()
                          if c.kind == CK.MACRO_DEFINITION and c.location.file is not None}
        # a typedef that names its own enumeration is the enumeration
        for k, lines in fdecl.items():
            if k[0] == "t" and ("e", k[1]) in u.uses:
                continue
            env.require(lines & got, "%s: no location line for %s %s (declared at %s); there are %s", "locations", k[0], k[1],
                        sorted(lines), sorted(got))
        for g in got:
            env.require(g in may or g in macros, "location line %d, where nothing is declared", g)

    def comments(self, case, tu, text):
        """the documentation of what is emitted is there"""
        def squeeze(t):
            return "".join(t.split())
        have = squeeze("".join(l.strip()[1:] for l in text.split("\n") if l.strip().startswith("#")))
        kinds = case["kinds"] or "cdefstu"
        cs = [c for c in layout.top_level(tu) if c.kind in closure.KIND and closure.KIND[c.kind] in kinds]
        count = {}

        def tally(c):
            # the namespaces of C++ share their names in python
            if c.kind in closure.KIND:
                count[c.kind, c.spelling] = count.get((c.kind, c.spelling), 0) + 1
            if c.kind not in (CK.FUNCTION_DECL, CK.VAR_DECL, CK.ENUM_DECL):
                for x in c.get_children():
                    tally(x)
        for c in layout.top_level(tu):
            tally(c)
        found = set()
        for c in cs:
            doc = c.brief_comment
            if doc and c.spelling.isidentifier() and count[c.kind, c.spelling] == 1 and \
                    (c.is_definition() or c.kind not in (CK.STRUCT_DECL, CK.UNION_DECL, CK.ENUM_DECL)):
                env.require(squeeze(doc) in have, "the comment of %s is missing: %r", c.spelling, doc)
                found.add("documented-declaration")
        return found

    def docstrings(self, tu, path, ns):
        where = {}
        for c in layout.top_level(tu):
            if c.kind == CK.FUNCTION_DECL and c.spelling.isidentifier():
                where.setdefault(c.spelling, []).append(c)
        for n, cs in where.items():
            doc = ns[n].__doc__
            env.require(doc is not None, "function %s has no docstring", n)
            env.require("%s(" % n in doc, "docstring of %s is %r", n, doc)
            ends = ["%s:%d" % (path, c.location.line) for c in cs]
            env.require(any(doc.rstrip().endswith(e) for e in ends), "docstring of %s is %r, expected it to end with %s", n, doc, ends)
            if len(cs) == 1 and not self.plus:
                # its parameters, in their order
                inner = doc[doc.index("%s(" % n) + len(n) + 1:]
                at = 0
                for a in cs[0].get_arguments():
                    if not a.spelling:
                        continue
                    m = re.compile(r"(?<!\w)%s(?=[,)])" % re.escape(a.spelling)).search(inner, at)
                    env.require(m, "docstring of %s lacks the parameter %s, or has it at another place: %r", n, a.spelling, doc)
                    at = m.end()


CHECK = C12()
