"""C18: the layout of the source text does not matter."""
from .. import cbits, cgen, cgraph, cmacro, cpp, cvar, env, layout, rewrite, shape
from ..core import Check
from ..env import Discard
from hypothesis import strategies as st

OPTS = cgen.Opts(functions=True, bitfields=False, max_decls=7)
ALL = [n for n, _ in rewrite.TREE] + rewrite.TEXT


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["types"] * 5 + ["bits"] + ["graph"] + ["vars"] * 2 + ["macros"] * 2 + ["c++"] * 2))
    if kind == "types":
        src = draw(cgen.programs(OPTS))[1]
    elif kind == "bits":
        src = draw(cbits.programs())["src"]
    elif kind == "graph":
        src = "\n".join(draw(cgraph.graphs(6))["decls"]) + "\n"
    elif kind == "c++":
        c = draw(cpp.programs(6, 5))
        src = c["header"] + c["src"]
    elif kind == "vars":
        src = draw(cvar.units(6))["src"]
    else:
        src = "\n".join(draw(cmacro.macro_sets(6, garbage=False))["lines"]) + "\n"
    opts = draw(st.lists(st.sampled_from(rewrite.CPLUSPLUS if kind == "c++" else ALL), min_size=1, max_size=5, unique=True))
    seed = draw(st.integers(0, 2 ** 20))
    density = draw(st.sampled_from([.1, .3, .03, .6]))
    new, applied = rewrite.rewrite(src, seed, density, opts)
    kinds = draw(st.sampled_from([None, "cdefmstu"])) if kind != "macros" else "cdefmstu"
    return {"src": src, "new": new, "kinds": kinds, "labels": sorted(applied) + ["of:" + kind], "c++": kind == "c++"}


class C18(Check):
    id = "C18"
    rule = ("a pair counts when the rewritten text differs from the source in more than white space at its ends, is valid C "
            "and at least one name is compared; distinct by both texts")
    quick, thorough = 2400, 40000
    assumptions = ["the rewrites keep the meaning: libclang accepts both texts",
                   "unnamed file-scope records, whose names come from their place in the text, are not generated"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        cpp = bool(case.get("c++"))
        how = {"name": "input", "ext": ".cpp"} if cpp else {}
        name = "input.cpp" if cpp else "input.c"
        layout.parse(case["src"], name=name, discard=cpp)
        layout.parse(case["new"], name=name, discard=True)
        a = env.load(env.generate(case["src"], kinds=case["kinds"], **how))
        if any("inputDOTc" in n or "input_cpp" in n for n in a["__all__"]):
            raise Discard("a record named after its place")
        b = env.load(env.generate(case["new"], kinds=case["kinds"], **how))
        for ns in (a, b):
            ns["__all__"] = [n for n in ns["__all__"] if not n.startswith("ZQ_")]
        shape.same_modules(a, b, "rewritten")
        return len(a["__all__"]) > 0 and case["src"].strip() != case["new"].strip(), case["labels"]


CHECK = C18()
