"""When two values, each seen in its own state, are not the same."""
import text
from absint import St, Unsupported


def view(it, st, v):
    """[(guard, value)] behind references (strings stay references); an address made from an integer is that integer"""
    if v is not None and v[0] == "o" and isinstance(v[1], tuple) and v[1][0] == "addr":
        return [(1, ("b", v[1][1]))]
    if v is None or v[0] != "r":
        return [(1, v)]
    if any(t[2] is not None for g, t in v[1]):
        return [(1, v)]
    out = []
    for g, t in v[1]:
        try:
            x = it.load_target(st, t)
        except Unsupported:
            return [(1, ("o", ("ptr", it.canon(v, st))))]
        for g2, y in view(it, st, x):
            gg = it.B.AND(g, g2)
            if gg:
                out.append((gg, y))
    return out


def diff(m, care, a, ca, b, cb, depth=0):
    """BDD of the inputs in care on which value a (cells ca) and value b (cells cb) differ"""
    it, B = m.it, m.B
    it2 = getattr(m, "it2", it)     # the two values may come from two builds of the program
    if not care or (a == b and ca is cb):
        return 0
    if depth > 24 or a is None or b is None:
        return 0 if a == b else care
    sa, sb = St(ca, care), St(cb, care)
    if a[0] == "r" or b[0] == "r":
        fa = a[0] == "r" and any(t[2] is not None for g, t in a[1])
        fb = b[0] == "r" and any(t[2] is not None for g, t in b[1])
        if fa and fb:
            return slices(m, care, a, sa, b, sb, depth)
        d = 0
        va, vb = view(it, sa, a), view(it2, sb, b)
        for g1, x in va:
            for g2, y in vb:
                g = B.AND(care, B.AND(g1, g2))
                if not g:
                    continue
                if (x is not None and x[0] == "r") != (y is not None and y[0] == "r"):
                    d = B.OR(d, g)
                elif x is not None and x[0] == "r":
                    d = B.OR(d, slices(m, g, x, sa, y, sb, depth))
                else:
                    d = B.OR(d, diff(m, g, x, ca, y, cb, depth + 1))
        return d
    if a[0] != b[0]:
        return care
    if a[0] == "b":
        n = max(len(a[1]), len(b[1]))
        d = 0
        if len(a[1]) != len(b[1]) and getattr(m, "narrow", None):
            for x in max(a[1], b[1], key=len)[min(len(a[1]), len(b[1])):]:
                care = B.AND(care, B.NOT(x))    # what the narrower build can represent
        for x, y in zip(m.resize(a[1], n), m.resize(b[1], n)):
            if x != y:
                d = B.OR(d, B.AND(care, B.XOR(x, y)))
        return d
    if a[0] == "s":
        if len(a[1]) != len(b[1]):
            return care
        d = 0
        for x, y in zip(a[1], b[1]):
            d = B.OR(d, diff(m, care, x, ca, y, cb, depth + 1))
        return d
    if a[0] == "e":
        if m.tpath(a[1]) != getattr(m, "tpath2", m.tpath)(b[1]):
            return care
        d = 0
        da = {v: (g, f) for v, g, f in a[2]}
        db = {v: (g, f) for v, g, f in b[2]}
        for v in set(da) | set(db):
            ga, xa = da.get(v, (0, None))
            gb, xb = db.get(v, (0, None))
            d = B.OR(d, B.AND(care, B.XOR(ga, gb)))
            both = B.AND(care, B.AND(ga, gb))
            if both and xa:
                for x, y in zip(xa, xb):
                    d = B.OR(d, diff(m, both, x, ca, y, cb, depth + 1))
        return d
    x, y = it.canon(a, sa), it2.canon(b, sb)
    return 0 if x == y else care


def slices(m, care, a, sa, b, sb, depth):
    it, B = m.it, m.B
    it2 = getattr(m, "it2", it)
    d = 0
    for g1, t1 in a[1]:
        for g2, t2 in b[1]:
            g = B.AND(care, B.AND(g1, g2))
            if not g or (it is it2 and t1 == t2 and sa.c.get(t1[0]) == sb.c.get(t2[0])):
                continue
            x, y = text.target_text(it, sa, t1), text.target_text(it2, sb, t2)
            d = B.OR(d, text.differ(B, g, x, y))
    return d
