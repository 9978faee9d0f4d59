"""C02: layout for other target architectures and ABI flags."""
from .. import cgen, env, layout
from ..core import Check
from .c01 import INTERESTING, SHAPES
from hypothesis import strategies as st

TARGETS = {  # triple -> pointer size
    "i386-linux": 4, "arm-linux-gnueabi": 4, "aarch64-linux-gnu": 8, "x86_64-w64-windows-gnu": 8,
    "mips-linux-gnu": 4, "i686-w64-windows-gnu": 4, "x86_64-linux-gnux32": 4, "riscv32-linux-gnu": 4,
    "powerpc64-linux-gnu": 8, "x86_64-linux-gnu": 8, "armv7-apple-ios": 4, "i386-pc-linux-gnu": 4,
    "avr": 2, "msp430": 2, "wasm32-unknown-unknown": 4, "s390x-linux-gnu": 8, "sparc-unknown-linux-gnu": 4, "arm64-apple-macosx": 8,
    "mips64-linux-gnuabin32": 4, "hexagon-unknown-elf": 4, "arm64_32-apple-watchos": 4, "lanai": 4, "m68k-linux": 4, "powerpc-ibm-aix": 4,
}
ABI = [["-fshort-enums"], ["-funsigned-char"], ["-fpack-struct=2"], ["-fpack-struct=1"], 
       ["-fsigned-char"], ["-std=c99"], ["-std=gnu11", "-fshort-enums"], ["-mlong-double-64"], ["-mlong-double-128"],
       ["-fpack-struct=4"], ["-fpack-struct=8", "-fshort-enums"]]


@st.composite
def modes(draw):
    how = draw(st.sampled_from(["-t", "-t", "-target", "--target=", "-m32", "abi", "abi"]))
    if how == "-m32":
        return {"how": how, "flags": ["-m32"] + draw(st.sampled_from([[], [], ["-fshort-enums"], ["-fpack-struct=4"]])),
                "target": None, "ptr": 4}
    if how == "abi":
        fl = draw(st.sampled_from(ABI))
        return {"how": how, "flags": fl, "target": None, "ptr": 8}
    t = draw(st.sampled_from(sorted(TARGETS)))
    fl = draw(st.sampled_from([[], [], [], ["-fshort-enums"], ["-fpack-struct=2"], ["-funsigned-char"]]))
    return {"how": how, "flags": fl, "target": t, "ptr": TARGETS[t]}


class C02(Check):
    id = "C02"
    rule = ("a (unit, target) pair counts when the target's ABI or the flag differs from the host default, and the unit "
            "defines at least one record with two or more members using pointers, nesting, arrays, packing, "
            "enums or anonymous members; distinct by source text, target and flags")
    quick, thorough = 4000, 60000
    assumptions = ["libclang run with the same target is the reference for the target's ABI",
                   "128-bit integers are not generated here, and a source that is not valid for the target is discarded",
                   "byte order of the target is outside the property: generated classes are native-endian"]

    def strategy(self, tier):
        o = cgen.Opts(int128=False, big_arrays=True)
        if tier == "thorough":
            o = cgen.dataclasses.replace(o, max_decls=12, max_fields=9, depth=3)
        return st.tuples(cgen.programs(o), modes()).map(
            lambda x: dict(x[1], src=x[0][1], labels=sorted(x[0][0].labels)))

    def enumerate(self, tier):
        out = []
        for s in SHAPES:
            if "__int128" in s:
                continue
            for t, p in sorted(TARGETS.items()):
                out.append({"src": s, "labels": ["shape", "nested-record"], "how": "-t", "flags": [], "target": t,
                            "ptr": p})
        return out

    def run(self, case):
        flags = list(case["flags"])
        if case["target"]:
            tf = ["-target", case["target"]] if case["how"] in ("-t", "-target") else ["--target=" + case["target"]]
        else:
            tf = []
        tu = layout.parse(case["src"], tf + flags, discard=True)
        if case["how"] == "-t":
            text = env.generate(case["src"], target=case["target"], flags=flags)
        else:
            text = env.generate(case["src"], flags=tf + flags)
        w = layout.walk_unit(env.load(text), tu, case["ptr"])
        labels = list(case["labels"]) + ["how:" + case["how"], "ptr:%d" % case["ptr"]]
        labels += ["target:" + case["target"]] if case["target"] else ["flags:" + " ".join(flags)]
        return (w.records >= 1 and w.fields >= 2 and bool(INTERESTING & set(case["labels"]))
                and case["target"] != "x86_64-linux-gnu"), labels


CHECK = C02()
