"""C11: kinds, symbols and regular expressions select exactly what was asked for."""
import re

from .. import cgen, cgraph, closure, cpp, cvar, env, layout, shape
from ..core import Check
from clang.cindex import CursorKind as CK
from hypothesis import strategies as st

KINDS = "defmstu"
MACROS = [("#define MA_%d 12", 12), ("#define MB_%d \"text\"", "text"), ("#define MC_%d (1 << 3)", 8), ("#define MD_%d", True),
          ("#define ME_%d 'x'", "x"), ("#define MF_%d -3", -3)]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    k = draw(st.sampled_from(["graph", "graph", "prog", "prog", "prog", "chain", "c++"]))
    flags = []
    if k == "c++":
        c = draw(cpp.programs(9 if big else 7, 4))
        src, labels, flags = c["header"] + c["src"], ["c++"], c["flags"]
    elif k == "chain":
        g = draw(cgraph.chains(60 if big else 24))
        src, labels = "\n".join(g["decls"]) + "\n", g["labels"]
    elif k == "graph":
        g = draw(cgraph.graphs(10 if big else 6))
        src, labels = "\n".join(g["decls"]) + "\n", ["graph"]
    else:
        g, src = draw(cgen.programs(cgen.Opts(functions=True, max_decls=14 if big else 9, max_fields=4)))
        labels = ["program"]
    if k != "c++" and draw(st.booleans()):
        src += draw(cvar.units(3))["src"]
        labels.append("variables")
    macros = []
    for i in range(draw(st.integers(0, 3))):
        t, v = draw(st.sampled_from(MACROS))
        t = t % i
        macros.append([t.split()[1], v])
        src = t + "\n" + src
    how = draw(st.sampled_from(["kinds", "kinds", "symbols", "symbols", "regex", "regex", "kinds+symbols", "kinds+regex", "both"]))
    kinds = None
    if "kinds" in how:
        kinds = "".join(sorted(draw(st.sets(st.sampled_from(KINDS + "ac"), min_size=1, max_size=5))))
    elif draw(st.integers(0, 3)) == 0:
        kinds = "cdefmstu"
    # symbols and expressions are drawn as positions in the list of declared names
    picks = [draw(st.integers(0, 10 ** 6)) for _ in range(draw(st.one_of(*[st.integers(1, 4)] * 15, st.integers(5, 40))))]
    forms = [draw(st.sampled_from(["exact", "anchored", "prefix", "suffix", "mid", "class", "alt", "dot", "absent"]))
             for _ in picks]
    unknown = None
    if kinds and draw(st.integers(0, 15)) == 15:
        i = draw(st.integers(0, len(kinds)))
        unknown = kinds[:i] + draw(st.sampled_from("bgxzS E,0-\u00e9*")) + kinds[i:]
    return {"src": src, "unknown": unknown, "c++": k == "c++", "flags": flags, "how": how, "kinds": kinds, "picks": picks, "forms": forms, "macros": macros, "labels": labels}


def pattern(form, name):
    n = len(name)
    return {"exact": name, "anchored": "^%s$" % name, "prefix": "^" + name[:max(1, n // 2)], "suffix": name[n // 2:] + "$",
            "mid": name[n // 3:max(n // 3 + 1, 2 * n // 3)], "class": name[:-1] + "[%s]" % name[-1],
            "alt": "^(%s|nothing_here)$" % name, "dot": name[:1] + ".*" + name[-1:], "absent": "no_such_name_"}[form]


class C11(Check):
    id = "C11"
    rule = ("a case counts when the filter selects some but not all of five or more declarations; distinct by source text "
            "and filter")
    quick, thorough = 3600, 60000
    assumptions = ["a record or enumeration is selected under the name it has in Python (struct_x); enumerators come with their "
                   "enumeration; what a declaration needs is the closure of all types it mentions, also through pointers",
                   "a typedef that names its enumeration like the tag, or names an unnamed one, is the enumeration: kind e",
                   "with symbols and expressions together, between the intersection and the union may be emitted"]

    def strategy(self, tier):
        return cases(tier)

    def run(self, case):
        if case.get("c++"):
            return self.cplusplus(case)
        tu = layout.parse(case["src"])
        u = closure.Unit(tu)
        macros = {("m", n): v for n, v in case["macros"]}
        entities = sorted(set(u.kind) | set(macros))
        names = sorted({k[1] for k in entities if not k[1].startswith("@")})
        if not names:
            raise env.Discard("no names")
        syms, regs = [], []
        for p, f in zip(case["picks"], case["forms"]):
            n = names[p % len(names)]
            if "symbols" in case["how"] or (case["how"] == "both" and p % 2):
                syms.append("no_such_name_" if f == "absent" else n)
            if "regex" in case["how"] or (case["how"] == "both" and not p % 2):
                regs.append(pattern(f, n))
        kinds = case["kinds"] or "cdefstu"
        letters = set(kinds) | ({"s"} if "c" in kinds else set())
        bykind = {k for k in entities if k[0] in letters}
        unnamed = {k for k in bykind if k[1].startswith("@")}
        bysym = {k for k in bykind if k[1] in syms}
        byreg = {k for k in bykind if not k[1].startswith("@") and any(re.search(r, k[1]) for r in regs)}
        if syms and regs:
            low, high = bysym & byreg, bysym | byreg
        elif syms:
            low = high = bysym
        elif regs:
            low = high = byreg
        else:
            low = high = bykind
        if regs:
            # entities without a C name have a made up name, which may match
            high = high | unnamed
        if case.get("unknown"):
            self.rejected(case)
        full = env.load(env.generate(case["src"], kinds="cdefmstu"))
        ns = env.load(env.generate(case["src"], kinds=case["kinds"], symbols=syms, regexes=regs))
        # a typedef with the name of its enumeration is one Python object, which is the enumeration
        low = {k for k in low if not (k[0] == "t" and ("e", k[1]) in u.uses)}
        need = u.names(u.close(low))
        allow = u.names(u.close(high, True))
        universe = u.universe() | {n for n, _ in case["macros"]}
        for n in ns["__all__"]:
            env.require(n in ns, "exported name %s is not defined", n)
            env.require(n in full, "name %s appears only with the filter", n)
            if n in universe:
                env.require(n in allow or ("m", n) in high, "%s is emitted but neither selected nor needed", n)
        for n in need:
            env.require(n in ns, "%s is selected or needed, but not defined", n)
            env.require(n in ns["__all__"], "%s is selected or needed, but not exported", n)
        w = layout.Walker(ns)
        for k in low:
            c = u.kind.get(k)
            if k[0] == "m":
                env.require(k[1] in ns and ns[k[1]] == macros[k] and type(ns[k[1]]) is type(macros[k]),
                            "macro %s is %r, not %r", k[1], ns.get(k[1], "absent"), macros[k])
            elif k[0] == "d":
                env.require(same_value(ns[k[1]], full[k[1]]), "variable %s is %r, without filter %r", k[1], ns[k[1]], full[k[1]])
            elif k[0] == "f":
                w.function([x for x in layout.top_level(tu) if x.spelling == k[1] and x.kind == CK.FUNCTION_DECL][-1])
            elif k[1].startswith("@"):
                pass
            else:
                layout.check_one(w, c.get_definition() or c)
        labels = set(case["labels"]) | {case["how"]} | {"kind:" + x for x in kinds if case["kinds"]}
        if case.get("unknown"):
            labels.add("unknown-kind")
        if regs:
            labels |= {"regex:" + f for f in case["forms"]}
        if len(need) > len(u.names(low)):
            labels.add("needs-more-than-selected")
        return len(entities) >= 5 and 0 < len(low) < len(entities), labels

    def rejected(self, case):
        """a letter that is no kind: nothing is translated"""
        with env.case_dir() as d:
            env.write_files(d, {"input.c": case["src"]})
            for argv in (["-k" + case["unknown"]], ["--kind=" + case["unknown"]]):
                r = env.run_main(argv + [d + "/input.c"], d + "/out.py")
                env.require(r.rc != 0 and "struct" not in r.text and "__all__" not in r.text,
                            "kinds %r are accepted", case["unknown"])

    def cplusplus(self, case):
        """against the unfiltered module: what is selected is there and the same, and nothing is there that
        the text of the selected declarations does not lead to"""
        flags = case["flags"]
        with env.case_dir() as d:
            # the names of unnamed types come from the path
            env.write_files(d, {"input.cpp": case["src"]})
            tu = layout.parse(case["src"], flags, name=d + "/input.cpp", discard=True)

            def module(**o):
                r = env.run_main(env.options_argv(flags=flags, **o) + [d + "/input.cpp"], d + "/out.py")
                env.require(r.rc == 0 and r.exc is None, "not translated with %s: %s", o, (r.tb or "")[-1200:])
                return env.load(r.text)
            u = closure.References(tu)
            if layout.cpp_representable(tu) == "base needs its derived class":
                raise env.Discard("K22")
            full = module(kinds="cdefmstu")
            macros = dict(case["macros"])
            kinds = case["kinds"] or "cdefstu"
            named = {}      # what can be selected: kind letters
            for n in full["__all__"]:
                k = u.kind(n, full[n]) if n not in macros else "m"
                if k:
                    named[n] = k
            pool = sorted(n for n in named if n.isidentifier())
            if not pool:
                raise env.Discard("no names")
            syms, regs = [], []
            for p, f in zip(case["picks"], case["forms"]):
                n = pool[p % len(pool)]
                if "symbols" in case["how"] or (case["how"] == "both" and p % 2):
                    syms.append("no_such_name_" if f == "absent" else n)
                if "regex" in case["how"] or (case["how"] == "both" and not p % 2):
                    regs.append(pattern(f, n))
            m = module(kinds=case["kinds"], symbols=syms, regexes=regs)
        bykind = {n for n, k in named.items() if set(k) & set(kinds)}
        bysym = {n for n in bykind if n in syms}
        byreg = {n for n in bykind if any(re.search(r, n) for r in regs)}
        low = bysym & byreg if syms and regs else bysym if syms else byreg if regs else bykind
        high = bysym | byreg if syms or regs else bykind
        for n in m["__all__"]:
            env.require(n in m, "exported name %s is not defined", n)
            env.require(n in full["__all__"], "name %s appears only with the filter", n)
        for n in low:
            env.require(n in m["__all__"], "%s is selected, but not exported", n)
        shape.same_names(full, m, m["__all__"], "filtered")
        allowed = u.reach(high)
        for n in m["__all__"]:
            k = named.get(n)
            if k and n not in high and "inputDOTcpp" not in n:
                if k in "fdm":
                    env.require(False, "%s (kind %s) is emitted but not selected", n, k)
                env.require(allowed is None or u.words(n) & allowed, "%s is emitted but neither selected nor needed", n)
        labels = set(case["labels"]) | {case["how"]} | {"kind:" + x for x in kinds if case["kinds"]}
        return len(named) >= 5 and 0 < len(low) < len(named), labels


def same_value(a, b):
    if isinstance(a, type) or isinstance(b, type):
        return isinstance(a, type) and isinstance(b, type) and a.__name__ == b.__name__
    if type(a).__module__ != "builtins":
        return type(a).__name__ == type(b).__name__
    return repr(a) == repr(b)


CHECK = C11()
