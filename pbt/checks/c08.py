"""C08: initialised variables."""
from .. import cvar, env, layout
from ..core import Check
from hypothesis import strategies as st


@st.composite
def cases(draw, tier):
    n = 12 if tier == "thorough" else 7
    c = draw(cvar.cxx_units(n) if draw(st.integers(0, 5)) == 0 else cvar.units(n))
    c["kinds"] = draw(st.sampled_from(["cdefmstu", "cdefmstu", "cdefstu", "d"]))
    c["flags"] = draw(st.sampled_from([[], [], [], [], ["-m32"]])) if "__int128" not in c["src"] else []
    return c


def big(e):
    """does an expected value need more than 32 bits"""
    return e[0] == "num" and abs(e[1]) >= 2 ** 31 or e[0] == "list" and any(big(x) for x in e[1])


class C08(Check):
    id = "C08"
    rule = ("a set of variables counts when one of them has an initialiser other than a plain decimal literal, or is an "
            "array, string, float, enumeration, pointer or record; distinct by source text and options")
    quick, thorough = 4500, 80000
    assumptions = ["integers count modulo the width of their type, floats with or without rounding to float, characters as "
                   "the text of the literal or its value: the test suite fixes `as written`",
                   "values of integer expressions are confirmed by the C front end with _Static_assert",
                   "initialisers that convert (1.9 to int, 5 to _Bool), designators, adjacent strings with escapes and "
                   "values beyond 64 bits are not generated"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        flags = case["flags"]
        if flags and ("sizeof" in case["src"] or any(big(e[1]) for e in case["expect"])):
            flags = []
        cxx = case.get("lang") == "c++"
        asserts = "".join('%s((%s) == (%s), "");\n' % ("static_assert" if cxx else "_Static_assert", t,
                                                       "-%dL" % -v if v < 0 else "%dL" % v) for t, v in case["asserts"])
        layout.parse(case["src"] + asserts, list(flags) + ["-Wno-everything"], name="oracle.cpp" if cxx else "oracle.c")
        ns = env.load(env.generate(case["src"], ".cpp" if cxx else ".c", kinds=case["kinds"], flags=flags))
        for name, exp in case["expect"]:
            got = env.get(ns, name)
            env.require(name in ns["__all__"], "variable %s is not exported", name)
            env.require(cvar.matches(got, exp), "variable %s is %r, expected %r", name, got, exp[1:])
        for k in ns["__all__"]:
            env.require(k in ns, "exported name %s is not defined", k)
        labels = list(case["labels"]) + ["kinds:" + case["kinds"]] + list(flags)
        return bool(set(case["labels"]) - {"var:int", "init:literal", "var:none"}), labels


CHECK = C08()
