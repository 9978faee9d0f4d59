"""C07: macros."""
import re

from .. import cgen, cmacro, env, layout
from ..core import Check
from hypothesis import strategies as st

# valid C around the macros, whose names never meet theirs
BODIES = [
    "", "", "struct body_s { int a; char b; };\n", "int body_v = 3;\n", "typedef unsigned int body_t; body_t body_f(int q);\n",
    "enum body_e { BODY_ONE = 1 };\n",
]


@st.composite
def cases(draw, tier):
    m = draw(cmacro.macro_sets(max_macros=12 if tier == "thorough" else 8))
    body = draw(st.sampled_from(BODIES))
    pos = draw(st.integers(0, len(m["lines"])))
    m["body"], m["pos"] = body, pos
    m["kinds"] = draw(st.sampled_from(["m", "cdefmstu", "cdefmstu", "acdefmstu"]))
    if "macro:garbage" not in m["labels"] and draw(st.integers(0, 7)) == 0:
        # C++, whose numbers may have separators
        m["lang"] = "c++"
        m["labels"] = sorted(set(m["labels"]) | {"lang:c++"})
        n = draw(st.integers(1, 3))
        m["lines"] = [l if "'" in l or '"' in l else
                      re.sub(r"(?<![\w.'\\])([1-9][0-9]{2,})(?=[uUlL]*(?:\W|$))", lambda x: x[0][:n] + "'" + x[0][n:] if len(x[0]) > n else x[0], l)
                      for l in m["lines"]]
    m["where"] = draw(st.sampled_from(["file", "file", "file", "header"]))
    return m


class C07(Check):
    id = "C07"
    rule = ("a macro set counts when it has a macro that is not a plain decimal literal: another base, suffix, float, "
            "character or string with escapes, sign, parentheses, expression, name of another macro, function-like or "
            "unresolvable; distinct by text")
    quick, thorough = 8000, 160000
    assumptions = ["values of integer macros are confirmed by the C front end with _Static_assert",
                   "suffix f does not round the value (the test suite fixes that); characters are one-character strings "
                   "and text is str, as in the test suite",
                   "division and modulo, wrapping unsigned arithmetic, redefinition, #undef and references to later macros "
                   "are not generated"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        expect = {k: cmacro.dec(v) for k, v in case["expect"]}
        lines = list(case["lines"])
        cxx = case.get("lang") == "c++"
        main = "input.cpp" if cxx else "input.c"
        if case["where"] == "header":
            files = {"h.h": "\n".join(lines) + "\n", main: '#include "h.h"\n' + case["body"]}
        else:
            lines.insert(case["pos"], case["body"].rstrip("\n"))
            files = {main: "\n".join(lines) + "\n"}
        labels = list(case["labels"]) + ["where:" + case["where"], "kinds:" + case["kinds"]]
        with env.case_dir() as d:
            paths = env.write_files(d, files)
            asserts = "".join("%s((%s) == (%s), \"\");\n" % ("static_assert" if cxx else "_Static_assert", k, lit(v))
                              for k, v in sorted(expect.items()) if k in case["asserts"])
            with open(paths[main], encoding="utf-8") as f:
                src = f.read()
            layout.parse(src + asserts, ["-I" + d, "-Wno-everything"], name="oracle.cpp" if cxx else "oracle.c",
                         discard="macro:garbage" in case["labels"])
            r = env.run_main(env.options_argv(kinds=case["kinds"], includes=case["where"] == "header") +
                             [paths[main]], d + "/out.py")
        if r.rc != 0 or r.exc is not None:
            raise env.Violation("macros were not translated: %s" % (r.tb or "")[-1500:])
        ns = env.load(r.text)
        allnames = ns["__all__"]
        for k, v in expect.items():
            got = env.get(ns, k)
            env.require(cmacro.same(got, v), "macro %s is %r, in C it is %r", k, got, v)
            env.require(k in allnames, "macro %s is not exported", k)
        for k in case["absent"]:
            env.require(k not in ns and k not in allnames, "macro %s has no value but is defined as %r", k, ns.get(k))
        for k in allnames:
            env.require(k in ns, "exported name %s is not defined", k)
        interesting = set(case["labels"]) - {"macro:int", "macro:empty"}
        return bool(interesting) or any(l.split() and not l.split()[-1].isdigit() for l in lines), labels


def lit(v):
    return "-%dL" % -v if v < 0 else "%dL" % v


CHECK = C07()
