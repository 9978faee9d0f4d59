"""C15: which declarations of which files are emitted."""
import os
import re

from .. import cgen, cgraph, closure, cpp, cvar, env, layout, shape, steps
from ..core import Check
from clang.cindex import CursorKind as CK, Index
from hypothesis import strategies as st

DIRS = ["", "", "sub/", "sub/deep/", "inc/", "a b/"]
ALIKE = ["f.c", "f.c.h", "xf.c", "f.c.c", "F.c", "f.h", "f.h.c", "f.c.d/g.h", "f.c.d/f.c", "xf.c.h"]
PAIRS = [("f.c", "f.c.h"), ("f.c", "xf.c"), ("f.h.c", "f.h"), ("f.c", "f.c.d/g.h"), ("F.c", "f.c"), ("f.c.d/f.c", "f.c"), ("f.c.c", "f.c"), ("f.c", "f.c.c")]
AGAIN = ["typedef int zq_again_t;", "int zq_again_f(int, zq_again_t *);", "extern int zq_again_v;", "struct zq_again_s;"]
FIRST = "typedef int zq_again_t;\nint zq_again_f(int, zq_again_t *);\nextern int zq_again_v;\nstruct zq_again_s { int a; char b; };"


def chunks(text):
    """top-level declarations of a generated source, each as one piece of text"""
    out, cur, depth, push = [], "", 0, 0
    for l in text.split("\n"):
        if not l.strip() and not cur:
            continue
        cur += l + "\n"
        push += ("pack(push" in l) - ("pack(pop" in l)
        if not l.startswith("#"):
            depth += l.count("{") - l.count("}")
        if depth == 0 and push == 0 and (l.rstrip().endswith((";", "*/")) or l.startswith("#")):
            out.append(cur)
            cur = ""
    if cur.strip():
        out.append(cur)
    return out


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    labels = set()
    if draw(st.integers(0, 5)) == 5:
        c = draw(cpp.programs(8 if big else 6, 4, True))
        return {"c++": True, "header": c["header"], "src": c["src"], "flags": c["flags"], "labels": ["c++"],
                "kinds": draw(st.sampled_from([None, "cdefmstu"])), "dir": draw(st.sampled_from(["", "sub/", "a b/"])),
                "quote": draw(st.booleans())}
    k = draw(st.sampled_from(["graph", "graph", "prog", "both"]))
    cs = []
    if k != "graph":
        cs += chunks(draw(cgen.programs(cgen.Opts(functions=True, max_decls=12 if big else 8, max_fields=4)))[1])
    if k != "prog":
        cs += chunks("\n".join(draw(cgraph.graphs(8 if big else 5, extras=False))["decls"]))
    if draw(st.integers(0, 2)) == 0:
        cs += chunks(draw(cvar.units(2))["src"])
    labels.add("source:" + k)
    macros = draw(st.integers(0, 2))
    for i in range(macros):
        cs.insert(draw(st.integers(0, len(cs))), "#define MACRO_%d %d\n" % (i, 100 + i))
    again = draw(st.integers(0, 2)) == 0
    style = draw(st.sampled_from(["tree", "chain", "chain", "twins", "opaque"]))
    guard = draw(st.sampled_from(["ifndef", "ifndef", "pragma"]))
    n = draw(st.integers(1, 6 if big else 4))
    if draw(st.integers(0, 15)) == 15:
        # many files
        n = draw(st.integers(8, 24))
        labels.add("many-files")
    includes = draw(st.booleans())
    if draw(st.integers(0, 5)) == 5:
        cs.insert(0, "#include <%s>\n" % draw(st.sampled_from(["stdint.h", "stddef.h", "limits.h"] if includes else
                                                             ["stdio.h", "stdlib.h", "stdint.h", "stddef.h", "time.h", "string.h"])))
        labels.add("system-header")
    if again:
        cs.insert(0, FIRST + "\n")
        labels.add("redeclared")
    cuts = sorted(draw(st.integers(0, len(cs))) for _ in range(n - 1))
    parts = [cs[a:b] for a, b in zip([0] + cuts, cuts + [len(cs)])]
    if style == "opaque":
        # what one source only declares is defined in a header of another one
        tags = sorted(set(re.findall(r"^(?:typedef )?((?:struct|union) \w+) \{", "".join(cs), re.M)))
        parts.insert(0, ["%s;\n" % t for t in tags] + ["int zq_use_%d(%s *, %s **);\n" % (i, t, t) for i, t in enumerate(tags)])
        if len(parts) == 2:
            parts.append([])
        n = len(parts)
    names = ["%sf%d%s" % (draw(st.sampled_from(DIRS)), i, draw(st.sampled_from([".h", ".h", ".c", ".inc.h"]))) for i in range(n)]
    names[-1] = draw(st.sampled_from(["main.c", "main.c", "src/main.c", "sub/f.h"]))
    if n <= 6 and draw(st.integers(0, 2)) == 0:
        # files of the same name in different folders
        base, free = draw(st.sampled_from(["main.c", "f.h"])), ["", "sub/", "sub/deep/", "inc/", "a b/", "src/"]
        for i in draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)):
            names[i] = ""
            folder = draw(st.sampled_from([x for x in free if x + base not in names]))
            names[i] = folder + base
        labels.add("same-basename")
    elif n <= len(ALIKE) and draw(st.integers(0, 3)) == 0:
        # the name of one file is part of the name of another one
        last, other = draw(st.sampled_from(PAIRS))
        names = draw(st.permutations([other] + draw(st.permutations([x for x in ALIKE if x not in (last, other)]))[:max(n - 2, 0)]))
        names = (names + [last])[-n:]
        labels.add("alike")
    labels.add("style:" + style)
    files = {}

    def inc(frm, to):
        if to.startswith("inc/") and draw(st.booleans()):
            return "#include <%s>" % to[4:]
        return '#include "%s"' % os.path.relpath(to, os.path.dirname(frm) or ".")

    def wrap(i, body):
        if guard == "pragma":
            return "#pragma once\n" + body
        return "#ifndef GUARD_%d\n#define GUARD_%d\n%s\n#endif\n" % (i, i, body)
    if style == "tree":
        # headers are cut out of the text of their includer, wherever they stand
        lines = ["".join(parts[-1])]
        inline = {i for i in range(n - 1) if draw(st.integers(0, 3)) == 0}
        order = [i for i in range(n - 1) if i not in inline]
        for i in order:
            files[names[i]] = wrap(i, "".join(parts[i]))
        # keep the order of the text: header 0, header 1 ..., nested as drawn
        nested = {}
        for i in order[:-1]:
            if i + 1 in order and draw(st.integers(0, 2)) == 0:
                nested[i + 1] = i        # header i is included by the head of header i+1
        for j, i in nested.items():
            files[names[j]] = wrap(j, inc(names[j], names[i]) + "\n" + "".join(parts[j]))
        main = "".join("".join(parts[i]) if i in inline else inc(names[-1], names[i]) + "\n"
                       for i in range(n - 1) if i not in nested.values())
        if inline and order:
            labels.add("include-in-the-middle")
        if order and draw(st.booleans()):
            main += inc(names[-1], names[order[0]]) + "\n"
        files[names[-1]] = main + "".join(lines)
        sources = [names[-1]]
    else:
        for i in range(n):
            direct = [j for j in range(style == "opaque", i) if j == i - 1 or draw(st.booleans())]
            if draw(st.booleans()):
                direct.reverse()
            files[names[i]] = wrap(i, "".join(inc(names[i], names[j]) + "\n" for j in direct) + "".join(parts[i]))
        sources = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)))
        if n > 6 and draw(st.booleans()):
            sources = range(n)
        if style == "opaque":
            sources = [0, n - 1]
        sources = [names[i] for i in draw(st.permutations(sources))]
    if again:
        first = next(i for i in range(style == "opaque", n) if parts[i])
        for f in draw(st.sets(st.sampled_from(names[first + 1:] or [""]), max_size=2)):
            if f in files:
                files[f] += "\n".join(draw(st.lists(st.sampled_from(AGAIN), max_size=3))) + "\n"
    if style == "twins":
        # two translation units with the same declarations of their own
        t = cs[:draw(st.integers(1, len(cs)))] if cs else []
        files = {"x.c": "".join(t) + "int only_x(int);\nstruct only_x { int a; };\n",
                 "y.c": "".join(t) + "int only_y(int);\nstruct only_y { char a; };\n"}
        sources = draw(st.permutations(["x.c", "y.c"]))
    # what the source files can see, in one piece
    flat = "".join(t) if style == "twins" else "".join("".join(p) for p in parts[:max(names.index(x) for x in sources) + 1])
    if style == "twins":
        flat += "int only_x(int);\nstruct only_x { int a; };\nint only_y(int);\nstruct only_y { char a; };\n"
    return {"files": files, "flat": flat, "sources": list(sources), "includes": includes, "kinds": draw(st.sampled_from([None, None, "cdefmstu", "s", "tf"])),
            "paths": draw(st.sampled_from(["abs", "abs", "rel", "dot", "up", "link", "file-link"])), "entry": draw(st.sampled_from(["main", "main", "files"])),
            "labels": sorted(labels)}


class C15(Check):
    id = "C15"
    rule = "a case counts when a name is left out by location, or there are several source files; distinct by files and options"
    quick, thorough = 1400, 22000
    assumptions = ["every file has a guard and can be translated alone", "macros of the source files do not use macros of the included files "
                   "(known finding K16)", "an entity belongs to every file that declares it, also without defining it"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        if case.get("c++"):
            return self.cplusplus(case)
        labels = set(case["labels"])
        flags = ["-Iinc"]
        with env.case_dir() as d:
            paths = env.write_files(d, case["files"])
            flags = ["-I" + os.path.join(d, "inc")]
            srcs = [paths[n] for n in case["sources"]]
            tus = []
            with env.oracle("clang"):
                for p in srcs:
                    tu = Index.create().parse(p, ["-x", "c"] + flags if not p.endswith((".c", ".h")) else flags, options=1)
                    bad = [x for x in tu.diagnostics if x.severity >= 3]
                    if bad:
                        raise env.HarnessError("invalid case: %s" % bad[0])
                    tus.append(tu)
            mine = {os.path.abspath(p) for p in srcs}
            low, every, units, macros, allmacros = set(), set(), [], {}, {}
            need, allow, universe = set(), set(), set()
            kinds = case["kinds"] or "cdefstu"
            letters = set(kinds) | ({"s"} if "c" in kinds else set())
            for tu in tus:
                u = closure.Unit(tu)
                units.append(u)
                sel, here = set(), set()
                for c in list(layout.top_level(tu)) + list(u.kind.values()):
                    if c.kind not in closure.KIND or c.location.file is None:
                        continue
                    k = u.key(c)
                    if case["includes"] or os.path.abspath(c.location.file.name) in mine:
                        here.add(k)
                        if k[0] in letters:
                            sel.add(k)
                for c in tu.cursor.get_children():
                    if c.kind == CK.MACRO_DEFINITION and c.spelling.startswith("MACRO_") and c.location.file is not None:
                        allmacros[c.spelling] = 100 + int(c.spelling[6:])
                        if "m" in kinds and (case["includes"] or os.path.abspath(c.location.file.name) in mine):
                            macros[c.spelling] = 100 + int(c.spelling[6:])
                sel = {k for k in sel if not (k[0] == "t" and ("e", k[1]) in u.uses)}
                universe |= u.universe()
                low |= sel
                every |= here
            for u in units:
                # what one file declares may be defined in what another one includes
                need |= u.names(u.close({k for k in low if k in u.kind}))
                # what the source files need, whether or not its kind is selected
                allow |= u.names(u.close({k for k in every if k in u.kind}, True))
            ns = env.load(self.translate(d, case, srcs, flags))
            for n in ns["__all__"]:
                env.require(n in ns, "exported name %s is not defined", n)
                env.require(n in allow or n not in universe, "%s is emitted, but it is neither in the source files nor needed", n)
                env.require(n in macros or n not in allmacros, "macro %s is emitted, but it is not in the source files", n)
            for n in sorted(need):
                env.require(n in ns["__all__"] and n in ns, "%s is in the source files or needed, but not emitted", n)
            for n, v in macros.items():
                env.require(n in ns["__all__"] and ns.get(n) == v, "macro %s is %r instead of %d", n, ns.get(n, "absent"), v)
            env.require(len(set(ns["__all__"])) == len(ns["__all__"]), "names are exported twice")
            # defined as in the translation of everything in one file
            system = "system-header" in labels
            whole = env.load(env.generate(case["flat"], kinds="cdefstu" if system else "cdefmstu", includes=system))
            shape.same_names(ns, whole, sorted(need), "against the single file")
            if len(srcs) > 1:
                labels.add("several-files")
                other = env.load(self.translate(d, case, srcs[::-1], flags))
                if case["kinds"] in ("s", "tf"):
                    # what unselected declarations depend on may be emitted or not
                    shape.same_names(ns, other, sorted(need), "files in reverse order")
                elif not any(n.startswith(("struct_c__", "union_c__", "c__")) for n in ns["__all__"]):
                    shape.same_modules(ns, other, "files in reverse order")
                twice = env.load(self.translate(d, case, srcs + srcs[:1], flags))
                env.require(twice["__all__"] == ns["__all__"], "a file given twice changes the names")
        labels |= {"includes" if case["includes"] else "default", "paths:" + case["paths"], "entry:" + case["entry"]}
        if universe - allow:
            labels.add("left-out")
        return bool(universe - allow) or len(srcs) > 1, labels

    def cplusplus(self, case):
        """with includes: as the text in one file; without: what the source file itself leads to"""
        labels = set(case["labels"])
        with env.case_dir() as d:
            h = case["dir"] + "zqh.hpp"
            src = ('#include "%s"\n' if case["quote"] else "#include <%s>\n") % h + case["src"]
            paths = env.write_files(d, {h: "#pragma once\n" + case["header"], "input.cpp": src,
                                        "flat/input.cpp": case["header"] + case["src"]})
            flags = case["flags"] + ["-I" + d]
            tu = layout.parse(src, flags, name=paths["input.cpp"], discard=True)
            if layout.cpp_representable(tu) == "base needs its derived class":
                raise env.Discard("K22")
            u = closure.References(tu, lambda c: c.location.file is not None and c.location.file.name == paths["input.cpp"])

            def module(path, **o):
                r = env.run_main(env.options_argv(flags=flags, kinds=case["kinds"], **o) + [path], d + "/out.py")
                env.require(r.rc == 0 and r.exc is None, "not translated with %s: %s", o, (r.tb or "")[-1200:])
                return env.load(r.text)
            mine, everything, flat = module(paths["input.cpp"]), module(paths["input.cpp"], includes=True), module(paths["flat/input.cpp"])

        def named(ns):
            return [n for n in ns["__all__"] if "DOT" not in n]
        for ns in (mine, everything, flat):
            for n in ns["__all__"]:
                env.require(n in ns, "exported name %s is not defined", n)
        env.require(named(everything) == named(flat), "with includes other names are emitted than for the text in one file: %s",
                    sorted(set(named(everything)) ^ set(named(flat))))
        shape.same_names(everything, flat, named(flat), "includes against one file") if not any("DOT" in n for n in flat["__all__"]) else None
        shape.same_names(mine, everything, named(mine), "without against with includes")
        allowed = u.reach(u.own)
        for n in named(mine):
            w = u.words(n)
            k = u.kinds.get(n)
            env.require(not w or w & u.own or (w & allowed and k not in ("f", "d")), "%s is neither in the source file nor needed", n)
        for n in named(flat):
            if u.kinds.get(n) and n in u.own:
                env.require(n in mine["__all__"], "%s is in the source file, but not emitted", n)
        labels |= {"dir:" + case["dir"]} | ({"left-out"} if len(named(mine)) < len(named(flat)) else set())
        return "left-out" in labels, labels

    def translate(self, d, case, srcs, flags):
        p = list(srcs)
        cwd = os.getcwd()
        if case["paths"] == "rel":
            p = [os.path.relpath(x, d) for x in p]
        elif case["paths"] == "dot":
            p = ["./" + os.path.relpath(x, d) for x in p]
        elif case["paths"] == "up":
            p = [os.path.join(os.path.dirname(x), "..", os.path.basename(os.path.dirname(x)), os.path.basename(x)) for x in p]
        elif case["paths"] == "link":
            # the folder of the files through another name
            ln = os.path.join(d, "ln")
            if not os.path.lexists(ln):
                os.symlink(d, ln)
            p = [os.path.join(ln, os.path.relpath(x, d)) for x in p]
            flags = ["-I" + os.path.join(ln, "inc")]
        elif case["paths"] == "file-link" and len(case["sources"]) == 1:
            # another name of the file, in the same folder
            ln = os.path.join(os.path.dirname(p[0]), "zq_link" + os.path.splitext(p[0])[1])
            if not os.path.lexists(ln):
                os.symlink(os.path.basename(p[0]), ln)
            p = [ln] * len(p)
        s = {"kinds": case["kinds"], "includes": case["includes"], "flags": flags, "inputs": []}
        os.chdir(d)
        try:
            if case["entry"] == "main":
                r = env.run_main(steps.argv_of(d, s) + p, os.path.join(d, "out.py"))
                if r.rc != 0 or r.exc is not None:
                    raise env.Violation("valid files were not translated (exit %r): %s" % (r.rc, (r.tb or "")[-1500:]))
                return r.text
            import io
            out = io.StringIO()
            try:
                env.translate_files(p, out, steps.make_cfg(s))
            except Exception as e:
                raise env.Violation("valid files were not translated: %s: %s" % (type(e).__name__, e))
            return out.getvalue()
        finally:
            os.chdir(cwd)


CHECK = C15()
