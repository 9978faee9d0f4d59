"""Generator of record dependency graphs: any record may point to any other, by-value
members follow a random acyclic order, and the text order is any order C accepts."""
from hypothesis import strategies as st

LINKS = ["ptr", "ptr", "ptr", "ptr2", "arrptr", "ptrarr", "fn", "fnret", "fnarr", "td", "td", "tdarr", "tdfn"]
# awkward as Python module names, harmless in C
FUNNY = ["print", "list", "type", "dict", "len", "object", "str", "id", "zip", "hasattr", "isinstance", "getattr", "super",
         "classmethod", "min", "POINTER", "Structure_", "c_int", "x__enumvalues", "FIXME", "field", "\u4e2d\u6587", "n" * 90, "result", "sys", "int_"]


def pick(draw, seq):
    return draw(st.sampled_from(list(seq)))


def chance(draw, pct):
    return draw(st.integers(0, 99)) >= 100 - pct


@st.composite
def graphs(draw, max_records=8, extras=True):
    """{"decls": [text...], "names": [...], "labels": [...]}: any order-preserving emission is in decls order"""
    n = draw(st.integers(1, max_records))
    labels = set()
    kws = [pick(draw, ["struct", "struct", "struct", "union"]) for _ in range(n)]
    tags = ["%s%d" % (pick(draw, ["s", "node", "Ctx", "_p", "T", "a_b", "struct_s", "\u00e9",
                                   "a_very_long_name_of_a_record_in_a_graph_of_records_that_point_at_each_other_"]), i) for i in range(n)]
    # by-value order: i may contain j only when rank[j] < rank[i]
    rank = draw(st.permutations(range(n)))
    sp = ["%s %s" % (kws[i], tags[i]) for i in range(n)]
    tdn = {}
    early, out = [], []
    for i in range(n):
        k = pick(draw, ["none", "none", "early", "late", "own", "anon"])
        if k == "anon" and any(False for _ in ()):
            continue
        if k in ("early", "late", "own"):
            tdn[i] = ("t_" + tags[i], k)
    for i, (t, k) in sorted(tdn.items()):
        if k == "early":
            early.append("typedef %s %s;" % (sp[i], t))
            labels.add("early-typedef")
    if chance(draw, 40):
        early = list(draw(st.permutations(early)))
    declared = {i for i, (t, k) in tdn.items() if k == "early"}
    usable_td = set(declared)
    # forward declarations
    fwd = []
    for i in range(n):
        if chance(draw, 25):
            fwd.append("%s;" % sp[i])
            declared.add(i)
            labels.add("forward")
    order = sorted(range(n), key=lambda i: rank[i])
    used_val, used_fn = set(), set()
    nfn = draw(st.integers(0, 3)) if extras else 0
    names = []
    later = []
    for pos, i in enumerate(order):
        ms = []
        for f in range(draw(st.integers(0, 5))):
            k = pick(draw, ["prim"] * 2 + ["val"] * 3 + ["link"] * 5)
            nm = "m%d" % f
            earlier = order[:pos]
            if k == "val" and earlier:
                j = pick(draw, earlier)
                labels.add("by-value")
                t = tdn[j][0] if j in tdn and (j in usable_td) and chance(draw, 50) else sp[j]
                ms.append("%s %s%s;" % (t, nm, pick(draw, ["", "", "[2]", "[2][3]"])))
            elif k == "link":
                # only what is declared already: a first mention inside a prototype would be local to it
                ok = [j for j in range(n) if j in declared or j in earlier or j == i]
                l = pick(draw, LINKS)
                j = pick(draw, ok) if l.startswith("fn") or l.startswith("td") else draw(st.integers(0, n - 1))
                if j not in declared and j not in earlier and j != i:
                    labels.add("implicit-forward")
                    declared.add(j)
                t = sp[j]
                if l.startswith("td"):
                    c = [x for x in sorted(usable_td)]
                    if c:
                        j = pick(draw, c)
                        t = tdn[j][0]
                    l = {"td": "ptr", "tdarr": "ptrarr", "tdfn": "fn"}[l]
                if j not in earlier and j != i:
                    labels.add("link-to-later")
                elif j == i:
                    labels.add("self-link")
                labels.add("link:" + l)
                if l == "arrptr" and j not in earlier:
                    l = "ptrarr"            # an array of an incomplete type is invalid
                ms.append({"ptr": "%s *%s;", "ptr2": "%s **%s;", "ptrarr": "%s *%s[3];", "arrptr": "%s (*%s)[2];",
                           "fn": "int (*%s)(%s *, int);", "fnret": "%s *(*%s)(void);",
                           "fnarr": "void (*%s[2])(%s *);"}[l] % (
                               (nm, t) if l in ("fn", "fnarr") else (t, nm)))
                # note: struct j first mentioned in this member is declared at file scope
            else:
                ms.append("%s %s;" % (pick(draw, ["int", "char", "double", "void *", "unsigned long"]), nm))
        if i in tdn and tdn[i][1] == "own":
            out.append("typedef %s { %s } %s;" % (sp[i], " ".join(ms), tdn[i][0]))
            usable_td.add(i)
        else:
            out.append("%s { %s };" % (sp[i], " ".join(ms)))
        declared.add(i)
        if i in tdn and tdn[i][1] == "late":
            later.append("typedef %s %s;" % (sp[i], tdn[i][0]))
        if chance(draw, 20) and extras:
            f = "use%d" % pos
            r, a = pick(draw, order[:pos + 1]), pick(draw, sorted(declared))
            out.append("%s%s %s(%s *, %s);" % (sp[r], pick(draw, ["", " *"]), f, sp[a], pick(draw, ["int", sp[order[0]]])))
            labels.add("function")
        if chance(draw, 15) and extras:
            out.append("extern %s g%d;" % (sp[order[0]], pos) if chance(draw, 50) else "%s *g%d;" % (sp[i], pos))
            labels.add("variable")
    if extras:
        for _ in range(nfn):
            nm = pick(draw, [x for x in FUNNY if x not in used_fn] or ["zz"])
            used_fn.add(nm)
            labels.add("python-name")
            later.append(pick(draw, ["int %s(int);", "int %s;", "typedef int %s;", "typedef struct { int v; } %s;",
                                     "enum { %s };", "struct %s { int v; };", "enum %s { e_%s };", "char %s[3];",
                                     "typedef enum { te_%s } %s;"]).replace("%s", nm))
        for j in range(draw(st.integers(0, 2))):
            later.append(pick(draw, ["typedef struct { int a; %s *p; } an%d;" % (sp[0], j),
                                     "enum { ea%d = 3, eb%d };" % (j, j), "enum te%d { ec%d, ed%d = -4 };" % (j, j, j),
                                     "typedef %s *tp%d;" % (sp[0], j), "typedef int (*cb%d)(%s *);" % (j, sp[0]),
                                     "typedef %s ta%d[4];" % (sp[0], j)]))
    if chance(draw, 50):
        # whatever needs only complete types may be shuffled
        later = list(draw(st.permutations(later)))
    return {"decls": early + fwd + out + later, "labels": sorted(labels)}


@st.composite
def chains(draw, longest=40):
    """records in a row, each of which refers to the next one; like graphs()"""
    n = draw(st.sampled_from([2, 5, 9, 17, 30, longest]))
    n = draw(st.integers(2, n))
    link = pick(draw, ["%s *n;", "%s *n;", "%s **n;", "%s *n[2];", "int (*n)(%s *);", "%s *(*n)(void);", "mix", "%s n;"])
    kw = [pick(draw, ["struct", "struct", "union"]) for _ in range(n)]
    names = ["%s c%d" % (kw[i], i) for i in range(n)]
    defs, decls = [], []
    style = pick(draw, ["forward", "forward", "backward", "shuffled", "headers"])
    byval = link == "%s n;"
    fan = draw(st.integers(2, 9)) if not byval and chance(draw, 30) else 0
    leaves = ["%s leaf%d" % (pick(draw, ["struct", "union"]), i) for i in range(fan)]
    at = draw(st.integers(0, n - 1))
    every = fan and n * fan <= 300 and draw(st.booleans())
    if every:
        # each record has leaves of its own
        leaves = ["%s leaf%d" % (pick(draw, ["struct", "union"]), i) for i in range(fan * n)]
    for i in range(n):
        more = "".join(" %s *l%d;" % (x, j) for j, x in enumerate(leaves[i * fan:][:fan] if every else leaves)) if every or i in (at, n - 1) else ""
        l = pick(draw, ["%s *n;", "int (*n)(%s *);", "%s *n[2];"]) if link == "mix" else link
        if "(*n)(%s" in l or "(void)" in l:
            style = "headers" if style != "backward" else style
        defs.append("%s { %s%s };" % (names[i], pick(draw, ["int a; ", "char a; ", "double a; ", ""]),
                                      (l % names[i + 1] if i + 1 < n else "int last;") + more))
    defs += ["%s { %s a; %s *up; };" % (x, pick(draw, ["int", "char", "double"]), names[at]) for x in leaves]
    if byval:
        style = "backward"
    if style == "headers":
        decls = ["%s;" % x for x in names + leaves]
        if chance(draw, 50):
            decls = ["typedef %s t_c%d;" % (x, i) for i, x in enumerate(names)]
        defs = list(draw(st.permutations(defs))) if chance(draw, 50) else defs
    elif style == "backward":
        defs = defs[::-1]
    elif style == "shuffled" and link not in ("int (*n)(%s *);", "mix"):
        defs = list(draw(st.permutations(defs)))
    return {"decls": decls + defs, "labels": ["chain", "chain:" + style, "by-value" if byval else "link-to-later"] + ["fan"] * (fan > 0)}
