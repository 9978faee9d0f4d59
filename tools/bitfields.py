"""regenerates known-bitfields.json: the records of C04's pool that fail on this tree.
Never run by a check."""
import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa (first: sys.path)
from pbt import cbits, layout  # noqa
from pbt.checks import c04  # noqa


def some(k):
    out = []
    for i in range(k, c04.POOL["thorough"], 64):
        src = cbits.pool_case(i)
        tu = layout.parse(src)
        try:
            layout.walk_unit(env.load(env.generate(src)), tu)
        except Exception as e:
            out.append((c04.key(src), cbits.claimed(tu), src[len(cbits.PRELUDE):] + "  " + str(e).strip()[-150:]))
    env.cleanup()
    return out


if __name__ == "__main__":
    bad = {}
    with ProcessPoolExecutor(8) as ex:
        for l in ex.map(some, range(64)):
            for k, claimed, src in l:
                bad[k] = (claimed, src)
    for k, (claimed, src) in bad.items():
        if claimed:
            print("CLAIMED", src)
    with open(c04.LIST, "w") as f:
        json.dump({"what": "K18: records of the pool of C04 whose bit fields are misplaced on the pinned tree "
                           "(sha1 of the source, first 12 digits)", "failing": sorted(k for k in bad if not bad[k][0])},
                  f, indent=0)
        f.write("\n")
    print(len(bad))
