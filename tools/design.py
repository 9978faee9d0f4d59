#!/opt/venv/bin/python
"""Rewrites the lists at the end of DESIGN.md: findings and planted bugs."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- lists: tools/design.py -->\n"


def main():
    p = os.path.join(VERIF, "DESIGN.md")
    text = open(p).read().split(MARK)[0]
    out = ["## Findings\n", "Repaired (each is a regression case of its check):\n"]
    fs = json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    for e in fs:
        if e["status"] == "fixed":
            out.append("* %s %s `%s` %s" % (e["id"], e["property"], e["commit"], e["what"]))
    out.append("\nRecorded, not repaired (larger than a small patch, or fixed by the existing tests):\n")
    for e in fs:
        if e["status"] == "known":
            out.append("* %s %s %s" % (e["id"], e["property"], e["what"]))
    out.append("\n## Planted bugs\n")
    out.append("Each was written from the property's text, confirmed in a scratch copy (builds, 155 tests pass, demonstration "
               "fails), and run against its property's quick check.\n")
    res = os.path.join(VERIF, "tools", "caught.json")
    caught = json.load(open(res)) if os.path.exists(res) else {}
    for b in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        m = os.path.join(VERIF, "seeded", b, "meta.json")
        if os.path.exists(m):
            d = json.load(open(m))
            out.append("* `%s` (%s): %s %s" % (b, d["property"], d["what_it_breaks"], caught.get(b, "")))
    open(p, "w").write(text + MARK + "\n".join(out) + "\n")


if __name__ == "__main__":
    main()
