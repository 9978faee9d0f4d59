"""C04: bit fields."""
import hashlib
import json
import os

from .. import cbits, env, layout
from ..core import Check
from ..env import Discard, Violation

POOL = {"quick": 3200, "thorough": 16000}
LIST = os.path.join(env.VERIF, "known-bitfields.json")


def key(src):
    return hashlib.sha1(src.encode()).hexdigest()[:12]


def known():
    with open(LIST) as f:
        return set(json.load(f)["failing"])


class C04(Check):
    id = "C04"
    rule = ("a generated unit counts when it has a record with two or more named bit fields of the claimed shape "
            "(claimed() below, decided from libclang's offsets); a record of the fixed pool counts when its bit "
            "fields were probed and all hold; distinct by source text")
    quick, thorough = 3000, 40000
    assumptions = ["libclang's offsets and widths are the reference for the C ABI (x86-64)",
                   "records of other shapes are only tried from a fixed pool; those that fail on the pinned tree are "
                   "known finding K18, listed by the hash of their source in known-bitfields.json"]

    def __init__(self):
        self.listed = None

    def strategy(self, tier):
        return cbits.programs(3 if tier == "quick" else 5)

    def enumerate(self, tier):
        for i in range(POOL[tier]):
            yield {"pool": i}

    def sample(self, case):
        return {"pool": case["pool"], "src": cbits.pool_case(case["pool"])} if "pool" in case else case

    def probe(self, src, tu):
        return layout.walk_unit(env.load(env.generate(src)), tu)

    def run(self, case):
        if "pool" in case:
            return self.pool(cbits.pool_case(case["pool"]))
        tu = layout.parse(case["src"])
        if not case.get("any_shape") and not cbits.claimed(tu):
            raise Discard("not of the claimed shape")
        w = self.probe(case["src"], tu)
        return w.bitfields >= 2, case["labels"]

    def pool(self, src):
        tu = layout.parse(src)
        if self.listed is None:
            self.listed = known()
        if key(src) in self.listed:
            return False, ["pool:listed in K18"]
        w = self.probe(src, tu)
        return w.bitfields >= 1, ["pool", "pool:claimed shape" if cbits.claimed(tu) else "pool:other shape"]


CHECK = C04()
