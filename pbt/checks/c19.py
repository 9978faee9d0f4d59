"""C19: C++ declarations."""
import functools

from .. import cpp, env, layout
from ..core import Check

INTERESTING = {"base", "namespace", "nested-class", "method", "static-member", "constructor", "reference", "anonymous-member",
               "extern-C", "access", "typed-enum", "unnamed-type"}


@functools.lru_cache(None)
def pointer_size(flags):
    return list(layout.parse("void *p;", flags, name="pointer.cpp").cursor.get_children())[-1].type.get_size()


class C19(Check):
    id = "C19"
    rule = ("a unit counts when it defines at least two records with three or more members between them and uses at least two of: "
            "base classes, namespaces, nested classes, methods, static members, constructors, access sections, references, "
            "anonymous members, typed enumerations, extern \"C\"; distinct by text")
    quick, thorough = 8000, 120000
    assumptions = ["libclang, asked directly about the same source, is the reference for the layout",
                   "names are distinct over all scopes and a class template is used once (K19), no multiple or virtual inheritance, "
                   "pointers to members or bit fields",
                   "units with a class whose members start in the tail padding of its base (or that has an empty base) are "
                   "discarded: see K20"]

    def strategy(self, tier):
        decls, size = (6, 6) if tier == "quick" else (10, 9)
        return cpp.programs(decls, size)

    def run(self, case):
        src, head = case["src"], case.get("header")
        with env.case_dir() as d:
            name = d + "/oracle.cpp"
            if head:
                env.write_files(d, {"zqh.hpp": "#pragma once\n" + head})
                src = '#include "zqh.hpp"\n' + src
            flags = case.get("flags", [])
            tu = layout.parse(src, flags, name=name, discard=True)
            why = None if case.get("any_base") else layout.cpp_representable(tu)
            if why:
                raise env.Discard(why)
            env.write_files(d, {"input.cpp": src})
            r = env.run_main(env.options_argv(includes=case.get("includes"), flags=flags) + [d + "/input.cpp"], d + "/out.py")
        env.require(r.rc == 0 and r.exc is None, "valid input was not translated (exit %r): %s", r.rc, (r.tb or "")[-1500:])
        w = layout.walk_cpp(env.load(r.text), tu, name if head and not case["includes"] else None,
                            pointer_size(tuple(flags)))
        labels = list(case["labels"]) + ["flags:" + " ".join(flags)] + (["derived:%d" % min(w.bases, 3)] if w.bases else [])
        if head:
            labels.append("header:" + ("included" if case["includes"] else "left-out"))
        return w.records >= 2 and w.fields >= 3 and len(INTERESTING & set(case["labels"])) >= 2, labels


CHECK = C19()
