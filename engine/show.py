"""What a formatting routine prints, as a sequence of pieces."""
import text
from absint import St, Unsupported


def template(b):
    """pieces of a compiled format template (encoding of core::fmt::Arguments of the pinned toolchain):
    [("lit", bytes) | ("arg", index, options)] or None"""
    if isinstance(b, str):
        return [("lit", b.encode("utf8"))]
    if b is None:
        return None
    out, i, arg = [], 0, 0
    try:
        while True:
            n = b[i]
            i += 1
            if n == 0:
                return out if i == len(b) else None
            if n < 0x80:
                out.append(("lit", b[i : i + n]))
                i += n
            elif n == 0x80:
                k = b[i] | b[i + 1] << 8
                out.append(("lit", b[i + 2 : i + 2 + k]))
                i += 2 + k
            elif n >= 0xC0:
                o = {}
                for bit, name, size in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2)):
                    if n & bit:
                        o[name] = int.from_bytes(b[i : i + size], "little")
                        i += size
                if n & 8:
                    arg = b[i] | b[i + 1] << 8
                    i += 2
                if n & 16:
                    o["dynwidth"] = True
                if n & 32:
                    o["dynprecision"] = True
                out.append(("arg", arg, o))
                arg += 1
            else:
                return None
    except IndexError:
        return None


class Unclear(Exception):
    pass


def const_text(m, care, st, v):
    """the one constant text a &str value is under `care`, or None"""
    got = set()
    for g, T in text.text(m.it, st, v) or [(1, ("opaque", None))]:
        if m.B.AND(care, g):
            if T[0] != "const":
                return None
            got.add(T[1])
    return got.pop() if len(got) == 1 else None


def number(m, care, v):
    """the one number a value is under `care`, or None"""
    if v is None or v[0] != "b":
        return None
    n = 0
    for k, b in enumerate(v[1]):
        if not m.B.AND(care, m.B.NOT(b)):
            n |= 1 << k
        elif m.B.AND(care, b):
            return None
    return n


def pieces(m, events, care, depth=0):
    """[("lit", bytes) | ("arg", kind, value, type, state, options, guard)] printed under `care`
    (care must decide every branch of the routine)"""
    B = m.B
    out = []
    for e in events:
        g = B.AND(care, e["pc"])
        if not g:
            continue
        if e["kind"] == "fmt_call":
            name = e["path"].split("::")[-1]
            st = St(e["st"], g)
            if name in ("write_str", "pad"):
                t = const_text(m, g, st, e["args"][1])
                out.append(("lit", t) if t is not None else ("arg", "display", e["args"][1], None, e["st"], {}, g))
            elif name == "debug_c_like_enum_write_str":
                # the names of all variants, one after the other, and where this one's starts
                t, at = const_text(m, g, st, e["args"][1]), number(m, g, e["args"][2])
                if t is None or at is None:
                    raise Unclear("derived rendering")
                out.append(("lit", t[at:].split(b" ")[0]))
            elif name == "write_char":
                c = m.B.is_const(e["args"][1][1]) if e["args"][1][0] == "b" else None
                if c is None:
                    raise Unclear("write_char")
                out.append(("lit", chr(c).encode("utf8")))
            elif name == "write_fmt":
                out += expand(m, g, st, e["args"][1], depth)
            elif e["path"] == "forward":
                a = e["args"][1][1]
                out += one_arg(m, g, st, (a[1], a[2], a[3]), {}, depth)
            elif name.startswith("finish"):
                pass
            else:
                raise Unclear("call of %s" % e["path"])
        elif e["kind"] == "fmt_new":
            out.append(("lit", (e.get("name") or "").encode("utf8")))
        elif e["kind"] == "fmt_field":
            out.append(("arg", "debug", e["val"], e["ty"], e["st"], {}, g))
    # join literals
    res = []
    for x in out:
        if x[0] == "lit" and res and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + x[1])
        elif x != ("lit", b""):
            res.append(x)
    return res


def expand(m, g, st, fa, depth):
    """pieces of a fmt::Arguments value"""
    while fa is not None and fa[0] == "r":
        fa = m.it.load_ref(st, fa)
    if fa is None or fa[0] != "o" or fa[1][0] != "fmtargs":
        raise Unclear("arguments not built here")
    tpl = template(fa[1][1])
    if tpl is None:
        raise Unclear("format template not understood")
    out = []
    for p in tpl:
        if p[0] == "lit":
            out.append(p)
            continue
        if p[1] >= len(fa[1][2]):
            raise Unclear("argument index")
        a = fa[1][2][p[1]]
        if a is None or a[0] != "o" or a[1][0] != "fmtarg":
            raise Unclear("argument not built here")
        out += one_arg(m, g, st, a[1][1:], p[2], depth)
    return out


def behind(it, st, ty, v):
    """type and place of the value behind (references to) a trait object"""
    n, t = 0, it.types[ty]
    while t["k"] == "ref":
        n, ty = n + 1, t["to"]
        t = it.types[ty]
    for _ in range(n - 1):
        v = it.load_ref(st, v)
    c = it.dyn_type(v)
    return (ty, v) if c is None else (c, v)


def one_arg(m, g, st, a, opts, depth):
    kind, val, ty = a
    plain = "precision" not in opts and "dynprecision" not in opts      # padding loses nothing, precision truncates texts
    t = m.types[ty]
    while t["k"] == "ref":
        ty = t["to"]
        t = m.types[ty]
    if t["k"] == "dyn":
        ty, val = behind(m.it, st, a[2], val)
        t = m.types[ty]
        while t["k"] == "ref":
            ty = t["to"]
            t = m.types[ty]
    if kind == "display" and t["k"] == "str" and plain:
        v = val
        for _ in range(4):
            if v is not None and v[0] == "r" and all(x[2] is None for gg, x in v[1]):
                v = m.it.load_ref(st, v)
        c = const_text(m, g, st, v)
        if c is not None:
            return [("lit", c)]
        return [("arg", kind, v, ty, st.c, opts, g)]
    if t["k"] == "adt" and t["local"] and plain and depth < 3 and kind in ("display", "debug"):
        root = m.trait(ty, "core::fmt::" + kind.capitalize(), "fmt")
        if root is not None and not root["derived"]:
            s2 = St(dict(st.c), g)
            v = val
            for _ in range(4):
                x = m.it.load_ref(s2, v)
                if x is not None and x[0] == "r":
                    v = x
                else:
                    break
            r = m.run(root, [v, m.it.newcell(s2, ("o", ("formatter",)))], s2, 48)
            if not r.err:
                ok = m.B.var(("fmt_ok",), 0)
                return pieces(m, r.events, m.B.AND(g, ok), depth + 1)
    return [("arg", kind, val, ty, st.c, opts, g)]
