"""Strings as values: what bytes a &str denotes, and when two of them differ."""
from absint import Unsupported


def target_text(it, st, t):
    """text of one reference target
    ("const", bytes) | ("var", byte bit-vectors, length bits) | ("trim", text) | ("opaque", canonical)"""
    B = it.B
    try:
        v = it.load_target(st, (t[0], t[1], None))
    except Unsupported:
        v = None
    if v is not None and v[0] == "o" and v[1][0] == "trim":
        return ("trim", v[1][1])
    if v is None or v[0] != "s" or t[2] is None:
        return ("opaque", it.canon(("r", ((1, t),)), st))
    s = B.is_const(t[2][0])
    if s is None:
        return ("opaque", it.canon(("r", ((1, t),)), st))
    bs = []
    for x in v[1][s:]:
        if x is None or x[0] != "b":
            break
        bs.append(tuple(x[1]))
    n = B.is_const(t[2][1])
    if n is not None:
        bs = bs[:n]
        cs = [B.is_const(b) for b in bs]
        if len(bs) == n and all(c is not None for c in cs):
            return ("const", bytes(cs))
    return ("var", tuple(bs), tuple(t[2][1]))


def text(it, st, v):
    """[(guard, text)] of a &str value"""
    if v is None or v[0] != "r":
        return None
    return [(g, target_text(it, st, t)) for g, t in v[1]]


def parts(B, T):
    """(bytes, length bits)"""
    if T[0] == "const":
        return [B.const(c, 8) for c in T[1]], B.const(len(T[1]), 64)
    if T[0] == "var":
        return list(T[1]), tuple(T[2]) + (0,) * (64 - len(T[2]))
    return None


def differ(B, care, a, b):
    """BDD of inputs in `care` where texts a and b are not the same bytes"""
    if care == 0 or a == b:
        return 0
    if "trim" in (a[0], b[0]):
        if a[0] == b[0]:
            return differ(B, care, a[1], b[1])
        return care
    pa, pb = parts(B, a), parts(B, b)
    if pa is None or pb is None:
        return care
    d = B.AND(care, B.NOT(B.eq(pa[1], pb[1])))
    care = B.AND(care, B.NOT(d))
    for k in range(max(len(pa[0]), len(pb[0]))):
        if not care:
            break
        inside = B.AND(care, B.ult(B.const(k, 64), pa[1]))
        if not inside:
            break
        if k >= len(pa[0]) or k >= len(pb[0]):
            d = B.OR(d, inside)
            break
        for x, y in zip(pa[0][k], pb[0][k]):
            if x != y:
                d = B.OR(d, B.AND(inside, B.XOR(x, y)))
    return d


def difference(B, care, xs, ys):
    """the same for guarded alternatives"""
    d = 0
    for g1, a in xs:
        for g2, b in ys:
            g = B.AND(care, B.AND(g1, g2))
            if g:
                d = B.OR(d, differ(B, g, a, b))
    return d


def show(m, xs):
    out = []
    for g, T in xs:
        out.append(show1(m, T))
    return " or ".join(out)


def show1(m, T):
    if T[0] == "const":
        return repr(T[1].decode("utf8", "replace"))
    if T[0] == "trim":
        return "trim(%s)" % show1(m, T[1])
    if T[0] == "var":
        n = m.B.is_const(T[2])
        bits = tuple(b for x in T[1] for b in x)
        return "%s of %s" % ("%d bytes" % n if n is not None else "prefix", m.fmtbits(bits))
    return "unknown text"
