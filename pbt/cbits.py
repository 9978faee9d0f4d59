"""C records with bit fields: the shapes C04 claims, and a fixed pool of arbitrary ones."""
import random

from hypothesis import strategies as st

from .env import oracle

from clang.cindex import CursorKind, TypeKind

ENUMS = "enum eu { EA, EB = 200 };\nenum es { SA = -2, SB = 1 };\n"
BASES = [("unsigned int", 32), ("int", 32), ("unsigned char", 8), ("signed char", 8), ("char", 8),
         ("unsigned short", 16), ("short", 16), ("unsigned long", 64), ("long", 64), ("_Bool", 8),
         ("unsigned long long", 64), ("long long", 64), ("enum eu", 32), ("enum es", 32),
         ("u8", 8), ("i16", 16), ("word", 64), ("const unsigned int", 32)]
TYPEDEFS = "typedef unsigned char u8;\ntypedef short i16;\ntypedef unsigned long word;\n"
PRELUDE = ENUMS + TYPEDEFS + "struct z { int a; char b; };\n"
PLAIN = [("char %s;", 1, 1), ("short %s;", 2, 2), ("int %s;", 4, 4), ("long %s;", 8, 8), ("char %s[3];", 1, 3),
         ("int %s[2];", 4, 8), ("void *%s;", 8, 8), ("double %s;", 8, 8), ("float %s;", 4, 4),
         ("struct z %s;", 4, 8), ("unsigned char %s[8];", 1, 8), ("int (*%s)(void);", 8, 8), ("_Bool %s;", 1, 1),
         ("enum eu %s;", 4, 4), ("struct z *%s[2];", 8, 16), ("char %s[7];", 1, 7), ("short %s[3];", 2, 6)]


def up(n, a):
    return (n + a - 1) // a * a


@st.composite
def run_of_bits(draw, pos, names, mixed):
    """one storage unit of adjacent bit fields at byte pos: (members, bytes, labels)"""
    units = [w for w in (8, 16, 32, 64) if pos * 8 % w == 0]
    w = draw(st.sampled_from(units))
    pool = [t for t in BASES if t[1] == w] if not mixed else [t for t in BASES if t[1] <= w]
    here, labels, out, bit = [], set(), [], 0
    full = draw(st.booleans())
    types = set()
    for _ in range(draw(st.integers(1, 6))):
        if bit >= w:
            break
        t, tw = draw(st.sampled_from(pool))
        if t == "_Bool":
            n = 1
            room = tw
        else:
            room = tw - bit % tw
            n = draw(st.integers(1, min(room, w - bit)))
        types.add(t)
        unnamed = draw(st.integers(0, 9)) == 0 and bit > 0 and t != "_Bool"
        if unnamed:
            labels.add("unnamed-bits")
            out.append("%s :%d;" % (t, n))
        else:
            nm = "f%d" % len(names)
            names.append(nm)
            here.append(nm)
            out.append("%s %s:%d;" % (t, nm, n))
        bit += n
    # the unit must belong to a type of that width
    widest = max([dict(BASES)[t] for t in types])
    if widest < w or full and bit < w:
        # (a field of the widest type to the end of the unit)
        if bit < w:
            wide = draw(st.sampled_from([t for t in BASES if t[1] == w and t[0] != "_Bool"] or [("unsigned char", 8)]))
            nm = "f%d" % len(names)
            names.append(nm)
            out.append("%s %s:%d;" % (wide[0], nm, w - bit))
            bit = w
            types.add(wide[0])
    widest = max([dict(BASES)[t] for t in types])
    if len(types) > 1:
        labels.add("mixed-types")
    if bit == w:
        labels.add("full-unit")
    labels.add("unit%d" % w)
    return out, up(bit, 8) // 8, widest // 8, labels


@st.composite
def record(draw, depth, names, earlier):
    """members of a record in the claimed shape: (text, align, size, labels)"""
    pos, align, labels, out = 0, 1, set(), []
    after = None                      # bytes of the unit that the last run must own
    n = draw(st.integers(1, 6))
    bits = False
    for i in range(n):
        kind = draw(st.integers(0, 9))
        if after is None and (kind < 5 or (i == n - 1 and not bits)):
            o, used, unit, lb = draw(run_of_bits(pos, names, draw(st.booleans())))
            out += o
            labels |= lb
            after = (pos + used, pos + unit)
            pos += used
            align = max(align, unit)
            bits = True
            continue
        choices = []
        for p in PLAIN:
            if after is None or up(after[0], p[1]) == after[1]:
                choices.append(p)
        nested = []
        for name, a, s in earlier:
            if s and (after is None or up(after[0], a) == after[1]):
                nested.append((name + " %s;", a, s))
                nested.append((name + " %s[2];", a, 2 * s))
        if nested and kind >= 8:
            labels.add("nested")
            choices = nested
        if depth and kind == 7 and (after is None or after[0] == after[1] and after[1] % 8 == 0):
            t, a, s, lb = draw(record(depth - 1, names, earlier))
            if after is None or up(after[0], a) == after[1]:
                labels |= lb | {"anonymous-member"}
                nm = ""
                if draw(st.booleans()):
                    nm = " m%d" % len(names)
                    names.append(nm)
                out.append("struct { %s }%s;" % (t, nm))
                pos = up(pos, a) + s
                align = max(align, a)
                after = None
                continue
        if not choices:
            # close the unit
            left = after[1] - after[0]
            choices = [("char %%s[%d];" % left, 1, left)] if False else None
            if choices is None:
                break
        text, a, s = draw(st.sampled_from(choices))
        nm = "m%d" % len(names)
        names.append(nm)
        out.append(text % nm)
        pos = up(pos, a) + s
        align = max(align, a)
        after = None
        labels.add("plain-neighbour")
    size = up(pos, align)
    if after is not None and size > after[1]:
        # padding behind a unit: not a claimed shape; let a member end it
        p = "long m%d;" % len(names) if up(after[0], 8) == after[1] else None
        if p is None:
            t = {1: "char", 2: "short", 4: "int", 8: "long"}
            a = 1
            for c in (8, 4, 2, 1):
                if after[1] % c == 0 and up(after[0], c) == after[1]:
                    a = c
                    break
            p = "%s m%d;" % (t[a], len(names))
        a = {"char": 1, "short": 2, "int": 4, "long": 8}[p.split()[0]]
        out.append(p)
        names.append("m%d" % len(names))
        pos = up(pos, a) + a
        align = max(align, a)
        size = up(pos, align)
    return " ".join(out), align, size, labels


@st.composite
def programs(draw, max_records=3):
    names, earlier, src, labels = [], [], PRELUDE, set()
    for i in range(draw(st.integers(1, max_records))):
        text, a, s, lb = draw(record(1, names, list(earlier)))
        labels |= lb
        if draw(st.integers(0, 3)) == 0:
            labels.add("typedef-only")
            src += "typedef struct { %s } T%d;\n" % (text, i)
            earlier.append(("T%d" % i, a, s))
        else:
            src += "struct s%d { %s };\n" % (i, text)
            earlier.append(("struct s%d" % i, a, s))
    if len(earlier) > 1 and draw(st.integers(0, 3)) == 0:
        labels.add("union-of-records")
        src += "union u { %s };\n" % " ".join("%s m%d;" % (n, i) for i, (n, _, _) in enumerate(earlier))
    return {"src": src, "labels": sorted(labels)}


# ---------------------------------------------------------------- what is claimed
def claimed(tu):
    """every run of adjacent bit fields: starts on a multiple of its widest type, stays in one
    unit of it, and whatever follows starts right behind that unit (types of several widths: no
    holes between the fields)"""
    with oracle():
        return all(_claimed(c) for c in _records(tu.cursor))


def _records(cur):
    for c in cur.get_children():
        if c.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL) and c.is_definition():
            yield c
            yield from _records(c)


def _claimed(rec):
    if rec.kind == CursorKind.UNION_DECL:
        return not any(f.is_bitfield() for f in rec.type.get_fields())
    runs, run = [], None
    fields = list(rec.type.get_fields())
    pos = 0
    for f in fields:
        off = f.get_field_offsetof()
        if f.is_bitfield():
            if run is None:
                run = dict(start=off, end=off, w=0, hole=False, types=set())
                runs.append(run)
            if f.get_bitfield_width() == 0:
                return False
            run["hole"] = run["hole"] or off != run["end"]
            run["types"].add(f.type.get_size())
            run["end"] = off + f.get_bitfield_width()
            run["w"] = max(run["w"], 8 * f.type.get_size())
        elif run is not None:
            run["next"] = off
            run = None
    if run is not None:
        run["next"] = 8 * rec.type.get_size()
    return all(r["start"] % r["w"] == 0 and r["end"] <= r["start"] + r["w"] and r["next"] == r["start"] + r["w"]
               and not (r["hole"] and len(r["types"]) > 1) for r in runs)


# ---------------------------------------------------------------- the pool
def pool_case(i):
    """the i-th record of the pool: any types, any neighbours, :0, packed, unions"""
    r = random.Random("bit fields %d" % i)
    ms, n = [], 0
    for _ in range(r.randint(1, 4)):
        if r.random() < .3:
            ms.append(r.choice(PLAIN)[0] % ("m%d" % n))
            n += 1
            continue
        t, w = r.choice(BASES)
        for _ in range(r.randint(1, 3)):
            if r.random() < .3:
                t, w = r.choice(BASES)
            x = r.random()
            if x < .04:
                ms.append("%s :0;" % t)
            elif x < .1 and t != "_Bool":
                ms.append("%s :%d;" % (t, r.randint(1, w)))
            else:
                ms.append("%s b%d:%d;" % (t, n, 1 if t == "_Bool" else r.randint(1, w)))
                n += 1
    if not any(":" in m and " :" not in m for m in ms):
        ms.append("int b%d:5;" % n)
    kind = "union" if r.random() < .1 else "struct"
    attr = " __attribute__((packed))" if r.random() < .1 else ""
    return PRELUDE + "%s s { %s }%s;" % (kind, " ".join(ms), attr)
