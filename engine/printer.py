"""Value-flow of the command-line report: strings as sequences of pieces, vectors, the printing
crate's calls as output events, and the library's own public queries as uninterpreted functions.

A String (and a &str made from one) is a reference to an immutable cell that holds
("o", ("text", pieces)); pieces are ("lit", bytes), ("str", reference) and
("arg", kind, value, type, options).  Joins of strings are joins of references."""
import re
import natives
import show
from absint import St, Unsupported, UNIT, strip0
from model import Model
from natives import lit, opt, call_closure

STEPS = 2          # items of an enumeration the report is analysed for
CORE = re.compile(r"(core|std|alloc)::")


def mk(it, pieces):
    """the string value with these pieces"""
    out = []
    for p in pieces:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        elif p != ("lit", b""):
            out.append(p)
    if all(p[0] == "lit" for p in out):
        return it.mkstr(b"".join(p[1] for p in out))
    if len(out) == 1 and out[0][0] == "str":
        return out[0][1]
    k = ("text", tuple(out))
    cell = it.gcell(k, ("o", k))
    return ("r", ((1, (cell, (), (it.B.const(0, 64), tuple(it.B.word(("len", k), 63)) + (0,)))),))


def deref(it, st, v, n=6):
    """behind references, down to a value or a string"""
    for _ in range(n):
        if v is None or v[0] != "r" or any(t[2] is not None for g, t in v[1]):
            return v
        v = it.load_ref(st, v)
    return v


def is_text(v):
    return v is not None and v[0] == "r" and all(t[2] is not None for g, t in v[1])


def text_of(it, st, v):
    v = deref(it, st, v)
    if not is_text(v):
        raise Unsupported("string built by code that is not modelled")
    return v


def args_pieces(it, st, fa):
    """pieces of a fmt::Arguments value"""
    fa = deref(it, st, fa)
    if fa is None or fa[0] != "o" or fa[1][0] != "fmtargs":
        raise Unsupported("format arguments not built here")
    tpl = show.template(fa[1][1])
    if tpl is None:
        raise Unsupported("format template not understood")
    out = []
    for p in tpl:
        if p[0] == "lit":
            out.append(p)
            continue
        if p[1] >= len(fa[1][2]):
            raise Unsupported("format argument index")
        a = fa[1][2][p[1]]
        if a is None or a[0] != "o" or a[1][0] != "fmtarg":
            raise Unsupported("format argument not built here")
        out.append(arg_piece(it, st, a[1][1], a[1][2], a[1][3], p[2]))
    return out


def arg_piece(it, st, kind, ref, ty, opts):
    v, full = deref(it, st, ref), ty
    if v is not None and v[0] == "o" and v[1][0] == "fmtargs" and kind in ("display", "debug"):
        return ("str", mk(it, args_pieces(it, st, v)))
    t = it.types[ty]
    while t["k"] == "ref":
        ty = t["to"]
        t = it.types[ty]
    if t["k"] == "dyn":
        ty, ref = show.behind(it, st, full, ref)
        v = deref(it, st, ref)
        t = it.types[ty]
        while t["k"] == "ref":
            ty = t["to"]
            t = it.types[ty]
    cut = "precision" in opts or "dynprecision" in opts or "dynwidth" in opts
    if is_text(v) and kind == "display" and not cut:
        return ("str", v)
    o = tuple(sorted(opts.items()))
    return ("arg", kind, v, ty, o)


def flatten(it, st, care, v, depth=0):
    """[(guard, pieces)] of a string under care; pieces are ("lit", ..) and ("arg", ..) only"""
    if not is_text(v):
        return [(care, (("arg", "unknown", v, None, ()),))]
    B = it.B
    out = []
    for g, t in v[1]:
        g = B.AND(care, g)
        if not g:
            continue
        k = it.g.get(t[0])
        if k is not None and k[0] == "o" and k[1][0] == "text" and not t[1]:
            alts = [(g, ())]
            for p in k[1][1]:
                if p[0] != "str":
                    alts = [(h, q + (p,)) for h, q in alts]
                    continue
                nxt = []
                for h, q in alts:
                    for h2, q2 in flatten(it, st, h, p[1], depth + 1):
                        nxt.append((h2, q + q2))
                alts = nxt
                if len(alts) > 64:
                    raise Unsupported("too many alternative texts")
            out += alts
            continue
        one = ("r", ((1, t),))
        c = lit_bytes(it, st, one)
        out.append((g, (("lit", c),) if c is not None else (("arg", "display", one, "str", ()),)))
    res = []
    for g, ps in out:
        q = []
        for p in ps:
            if p[0] == "lit" and q and q[-1][0] == "lit":
                q[-1] = ("lit", q[-1][1] + p[1])
            elif p != ("lit", b""):
                q.append(p)
        res.append((g, tuple(q)))
    return res


def lit_bytes(it, st, r):
    t = r[1][0][1]
    try:
        v = it.load_target(st, (t[0], t[1], None))
    except Unsupported:
        return None
    B = it.B
    s, n = B.is_const(t[2][0]), B.is_const(t[2][1])
    if v is None or v[0] != "s" or s is None or n is None:
        return None
    bs = [B.is_const(x[1]) if x and x[0] == "b" else None for x in v[1][s : s + n]]
    return None if None in bs or len(bs) != n else bytes(bs)


# ------------------------------------------------------------------ strings
def n_format(it, args, st, info):
    return mk(it, args_pieces(it, st, args[0]))


def n_to_string(it, args, st, info):
    fn = info["fn"]
    ty = info["aty"][0]
    v = deref(it, st, args[0])
    if is_text(v):
        return v
    return mk(it, [arg_piece(it, st, "display", args[0], ty, {})])


def n_same_text(it, args, st, info):
    return text_of(it, st, args[0])


def n_empty(it, args, st, info):
    return it.mkstr(b"")


def n_push_str(it, args, st, info):
    a, b = text_of(it, st, args[0]), text_of(it, st, args[1])
    it.store_ref(st, args[0], mk(it, [("str", a), ("str", b)]))
    return UNIT


def char_text(it, care, w):
    """the text of a character that is one of a few constants"""
    B, r = it.B, None
    for _ in range(16):
        n, g = 0, care
        for k, b in enumerate(w):
            h = B.AND(g, b)
            if h:
                n, g = n | 1 << k, h
        t = it.mkstr(chr(n).encode("utf8"))
        r = t if r is None else it.mux(g, t, r)
        care = B.AND(care, B.NOT(g))
        if not care:
            return r
    raise Unsupported("text of an unknown character")


def n_push_char(it, args, st, info):
    if not args[1] or args[1][0] != "b":
        raise Unsupported("push of an unknown character")
    c = char_text(it, st.pc, args[1][1])
    it.store_ref(st, args[0], mk(it, [("str", text_of(it, st, args[0])), ("str", c)]))
    return UNIT


def n_add(it, args, st, info):
    return mk(it, [("str", text_of(it, st, args[0])), ("str", text_of(it, st, args[1]))])


def ok(it, info):
    ty = info["dty"]
    t = it.types[ty]
    for i, v in enumerate(t.get("v", ())):
        if v["n"] == "Ok":
            return ("e", ty, ((i, 1, (UNIT,)),))
    raise Unsupported("result type")


def n_write_fmt(it, args, st, info):
    if it.types[it.types[info["aty"][0]].get("to", info["aty"][0])].get("path", "").split("::")[-1] != "String":
        return NotImplemented
    r = args[0]
    if it.types[it.types[info["aty"][0]].get("to", info["aty"][0])]["k"] == "ref":
        r = it.load_ref(st, r)
    it.store_ref(st, r, mk(it, [("str", text_of(it, st, r))] + args_pieces(it, st, args[1])))
    return ok(it, info)


def n_write_str(it, args, st, info):
    if it.types[it.types[info["aty"][0]].get("to", info["aty"][0])].get("path", "").split("::")[-1] != "String":
        return NotImplemented
    n_push_str(it, args, st, info)
    return ok(it, info)


def n_write_char(it, args, st, info):
    if it.types[it.types[info["aty"][0]].get("to", info["aty"][0])].get("path", "").split("::")[-1] != "String":
        return NotImplemented
    n_push_char(it, args, st, info)
    return ok(it, info)


def n_join(it, args, st, info):
    """[text; n].join(text): the elements one after another with the separator between them"""
    sep = text_of(it, st, args[1])
    out = []
    for i, x in enumerate(it.load_ref_slice(st, args[0])):
        if i:
            out.append(("str", sep))
        out.append(("str", text_of(it, st, x)))
    return mk(it, out)


# ------------------------------------------------------------------ vectors: ("s", (("s", elements), length))
def vec(it, elems, n=None):
    return ("s", (("s", tuple(elems)), ("b", n if n is not None else it.B.const(len(elems), 64))))


def vec_parts(it, st, v):
    v = deref(it, st, v)
    if v is None or v[0] != "s" or len(v[1]) != 2 or v[1][0] is None or v[1][0][0] != "s":
        raise Unsupported("vector built by code that is not modelled")
    return v[1][0][1], v[1][1][1]


def n_vec_slice(it, args, st, info):
    """&[T] of a &Vec<T>"""
    r = args[0]
    while True:
        v = it.load_ref(st, r)
        if v is not None and v[0] == "r":
            r = v
            continue
        break
    out = []
    for g, t in r[1]:
        x = it.load_target(st, t)
        if x is None or x[0] != "s" or len(x[1]) != 2:
            raise Unsupported("vector built by code that is not modelled")
        out.append((g, (t[0], t[1] + (("f", 0),), (it.B.const(0, 64), x[1][1][1]))))
    return ("r", tuple(out))


def n_nothing(it, args, st, info):
    return UNIT


def n_vec_iter(it, args, st, info):
    return natives.n_slice_iter(it, [n_vec_slice(it, args, st, info)], st, info)


def n_vec_index(it, args, st, info):
    """v[i]"""
    B = it.B
    if args[1] is None or args[1][0] != "b":
        return NotImplemented        # a range of it
    r = n_vec_slice(it, args, st, info)
    n = vec_parts(it, st, args[0])[1]
    out = B.AND(st.pc, B.NOT(B.ult(args[1][1], n)))
    if out:
        it.event(kind="assert", what="bounds", det="index of a vector", pc=out, ln=info["ln"], fn=info["f"]["path"], local=info["f"]["local"])
        st.pc = B.AND(st.pc, B.NOT(out))
        if not st.pc:
            return None
    return natives.elem_ref(it, r, args[1][1])


def n_vec_into_iter(it, args, st, info):
    es, n = vec_parts(it, st, args[0])
    cell = it.newcell(st, ("s", tuple(es)))[1][0][1][0]
    zero = it.B.const(0, 64)
    return ("si", ("r", ((1, (cell, (), (zero, n))),)), zero, n)


def n_vec_extend(it, args, st, info):
    es, n = vec_parts(it, st, args[0])
    add = drive(it, args[1], info["aty"][1], st, info)
    if add is NotImplemented or add is None:
        return add
    c = it.B.is_const(n)
    if c is None:
        raise Unsupported("extension of a vector of unknown length")
    new, k = add
    it.store_ref(st, args[0], vec(it, tuple(es[:c]) + tuple(new), it.B.add(n, k)[0]))
    return UNIT


def n_vec_extend_slice(it, args, st, info):
    es, n = vec_parts(it, st, args[0])
    c = it.B.is_const(n)
    if c is None:
        raise Unsupported("extension of a vector of unknown length")
    it.store_ref(st, args[0], vec(it, tuple(es[:c]) + tuple(it.load_ref_slice(st, args[1]))))
    return UNIT


def n_concat(it, args, st, info):
    out = [text_of(it, st, x) for x in it.load_ref_slice(st, args[0])]
    return mk(it, [("str", x) for x in out])


def n_str_extend(it, args, st, info):
    """a string with every item of an iterator appended"""
    head = text_of(it, st, args[0])
    add = drive(it, args[1], info["aty"][1], st, info)
    if add is NotImplemented or add is None:
        return add
    it.store_ref(st, args[0], strung(it, st, [("str", head)], *add))
    return UNIT


def strung(it, st, out, items, n):
    B = it.B
    r = mk(it, out)
    for k, x in enumerate(items):
        if B.AND(st.pc, B.ult(B.const(k, 64), n)) == 0:
            break
        v = deref(it, st, x)
        if v is not None and v[0] == "b":
            out = out + [("str", char_text(it, st.pc, v[1]))]
        else:
            out = out + [("str", text_of(it, st, v))]
        more = B.ult(B.const(k, 64), n)
        r = mk(it, out) if B.AND(st.pc, B.NOT(more)) == 0 else it.mux(more, mk(it, out), r)
    return r


def n_vec_len(it, args, st, info):
    return ("b", vec_parts(it, st, args[0])[1])


def n_vec_is_empty(it, args, st, info):
    return ("b", (it.B.eq(vec_parts(it, st, args[0])[1], it.B.const(0, 64)),))


def n_vec_new(it, args, st, info):
    return vec(it, ())


def n_vec_push(it, args, st, info):
    es, n = vec_parts(it, st, args[0])
    c = it.B.is_const(n)
    if c is None:
        raise Unsupported("push to a vector of unknown length")
    it.store_ref(st, args[0], vec(it, es[:c] + (args[1],)))
    return UNIT


def boxed(it, st, v):
    """an owned allocation: its pointer"""
    return ("s", (it.newcell(st, v),))


def n_vec_from_box(it, args, st, info):
    """a boxed array (what vec! builds)"""
    v = args[0]
    if v is None or v[0] != "s" or len(v[1]) != 1:
        raise Unsupported("vector of an unknown box")
    v = it.load_ref(st, v[1][0])
    if v is not None and v[0] == "s" and len(v[1]) == 2 and v[1][0] is None:    # MaybeUninit
        v = v[1][1]
        v = v[1][0] if v is not None and v[0] == "s" else None
    if v is None or v[0] != "s":
        raise Unsupported("vector of an unknown array")
    return vec(it, v[1])


def n_vec_from_array(it, args, st, info):
    v = deref(it, st, args[0])
    for _ in range(4):
        if v is not None and v[0] == "s" and len(v[1]) == 1 and v[1][0] is not None and v[1][0][0] in "sr":
            break
        break
    if v is None or v[0] != "s":
        raise Unsupported("vector of an unknown array")
    return vec(it, v[1])


def n_slice_to_vec(it, args, st, info):
    es = it.load_ref_slice(st, args[0])
    return vec(it, es)


def n_collect(it, args, st, info):
    """an iterator driven to its end into a vector"""
    tgt = it.types[info["dty"]].get("path", "").split("::")[-1]
    if tgt not in ("Vec", "String") or not args:
        return NotImplemented
    r = drive(it, args[0], info["aty"][0], st, info)
    if r is NotImplemented or r is None:
        return r
    return strung(it, st, [], *r) if tgt == "String" else vec(it, *r)


def n_unzip(it, args, st, info):
    t = it.types[info["dty"]]
    if t["k"] != "tuple" or any(not it.types[x].get("path", "").endswith("vec::Vec") for x in t["f"]):
        return NotImplemented
    r = drive(it, args[0], info["aty"][0], st, info)
    if r is NotImplemented or r is None:
        return r
    es, n = r
    if any(e is None or e[0] != "s" for e in es):
        raise Unsupported("unzip of unknown pairs")
    return ("s", (vec(it, [e[1][0] for e in es], n), vec(it, [e[1][1] for e in es], n)))


def drive(it, src, sty, st, info):
    """every item of an iterator: (items, how many there are)"""
    fn = info["fn"]
    steps = {(t, k): f for t, k, f in fn.get("steps", ())}
    step = steps.get((sty, "next"))
    if step is None and src is not None and src[0] == "r" and it.types[sty]["k"] == "ref":
        to = it.types[sty]["to"]
        if it.types[to].get("path", "").endswith("vec::Vec"):
            es, n = vec_parts(it, st, src)
            ref = n_vec_slice(it, [src], st, info)
            return [natives.elem_ref(it, ref, it.B.const(k, 64)) for k in range(len(es))], n
    if step is None and it.types[sty].get("path", "").endswith("vec::Vec"):
        return vec_parts(it, st, src)
    if step is None:
        conv = steps.get((sty, "into_iter"))
        if conv is None:
            return NotImplemented
        raise Unsupported("collecting from " + it.types[sty]["name"])
    body = it.p.fns[step["i"]]
    ref = it.newcell(st, src)
    B = it.B
    elems, done = [], []
    cur = St(dict(st.c), st.pc)
    for k in range(64):
        v = it.apply(step, [ref], [it.local_ty(body, 1)], it.local_ty(body, 0), cur, info["ln"], info["f"])
        if not cur.pc:
            break
        some, fs = it.some(v)
        stop = B.AND(cur.pc, B.NOT(some))
        if stop:
            done.append((St(cur.c, stop), k))
        go = B.AND(cur.pc, some)
        if not go:
            break
        cur = St(dict(cur.c), go)
        elems.append(fs[0])
    else:
        raise Unsupported("a collected enumeration does not end")
    if not done:
        st.pc = 0
        return None
    n = None
    for s, k in done:
        n = B.const(k, 64) if n is None else B.mux(s.pc, B.const(k, 64), n)
    j = it.join([s for s, k in done])
    st.c, st.pc = j.c, j.pc
    return elems, n


# ------------------------------------------------------------------ the printing crate
def n_template(it, args, st, info):
    t = flatten(it, st, 1, text_of(it, st, args[0]))
    if len(t) != 1 or len(t[0][1]) > 1 or t[0][1] and t[0][1][0][0] != "lit":
        raise Unsupported("table template is not a constant")
    return ("o", ("tpl", t[0][1][0][1] if t[0][1] else b""))


def n_expander(it, args, st, info):
    t = deref(it, st, args[0])
    if t is None or t[0] != "o" or t[1][0] != "tpl":
        raise Unsupported("table template not built here")
    it.uid += 1
    return ("s", (("o", ("expander", it.uid, t[1][1])),))


def expander(it, st, v):
    v = deref(it, st, v)
    if v is not None and v[0] == "s" and len(v[1]) == 1:
        v = v[1][0]
    if v is None or v[0] != "o" or v[1][0] not in ("expander", "row"):
        raise Unsupported("table not built here")
    return v[1]


def n_sub(it, args, st, info):
    e = expander(it, st, args[0])
    it.uid += 1
    return it.newcell(st, ("s", (("o", ("row", e[1], lit_const(it, st, args[1]), it.uid)),)))


def lit_const(it, st, v):
    c = lit(it, st, v)
    if c is None:
        raise Unsupported("placeholder name is not a constant")
    return c


def n_set(it, args, st, info):
    e = expander(it, st, args[0])
    it.event(kind="cell", table=e[1], sub=e[2] if e[0] == "row" else None, row=e[3] if e[0] == "row" else None,
             name=lit_const(it, st, args[1]), val=text_of(it, st, args[2]), st=st.c, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return args[0]


def n_print_table(it, args, st, info):
    e = expander(it, st, args[1])
    it.event(kind="table", table=e[1], tpl=e[2], st=st.c, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return UNIT


def n_print_text(it, args, st, info):
    it.event(kind="line", val=text_of(it, st, args[1]), st=st.c, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return UNIT


def n_print(it, args, st, info):
    it.event(kind="print", val=mk(it, args_pieces(it, st, args[0])), st=st.c, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return UNIT


def to_stdout(it, st, v):
    v = deref(it, st, v)
    if v != ("o", ("stdout",)):
        raise Unsupported("output to somewhere else than standard output")


def n_stdout_fmt(it, args, st, info):
    to_stdout(it, st, args[0])
    it.event(kind="print", val=mk(it, args_pieces(it, st, args[1])), st=st.c, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return ok(it, info)


def n_stdout_flush(it, args, st, info):
    to_stdout(it, st, args[0])
    return ok(it, info)


def n_read(it, args, st, info):
    """one execution of the CPUID source, uninterpreted"""
    sub = args[2][1] if len(args) > 2 else it.B.const(0, 32)
    it.event(kind="read", leaf=args[1][1], sub=sub, pc=st.pc, ln=info["ln"], fn=info["f"]["path"])
    return cpuid_value(it, args[1][1], sub, info["dty"])


def cpuid_value(it, leaf, sub, ty):
    return it.sym(ty, ("cpuid", tuple(leaf), tuple(sub)))


def settled(B, pc, w):
    """the word, bits that are constant on this path replaced by their value"""
    return tuple(x if x in (0, 1) else 1 if not B.AND(pc, B.NOT(x)) else 0 if not B.AND(pc, x) else x for x in w)


# ------------------------------------------------------------------ ranges: an arbitrary number of the range
def n_range_next(inclusive):
    def nat(it, args, st, info):
        B = it.B
        v = it.load_ref(st, args[0])
        if v is not None and v[0] == "o" and v[1][0] == "spent":
            return opt(it, info, 0, None)
        if v is None or v[0] != "s" or any(x is None or x[0] != "b" for x in v[1]):
            return NotImplemented
        if not it.ranges:
            w = ("s", tuple(("b", settled(B, st.pc, x[1])) for x in v[1]))
            if w != v:
                it.store_ref(st, args[0], w)
            return NotImplemented
        a, b = v[1][0][1], v[1][1][1]
        if len(v[1]) > 2 and v[1][2][1][0] != 0:
            return NotImplemented
        if B.is_const(a) is not None and B.is_const(b) is not None and B.is_const(b) - B.is_const(a) < 64:
            return NotImplemented
        x = B.word(("number", tuple(a), tuple(b), inclusive), len(a))
        inside = B.AND(B.NOT(B.ult(x, a)), B.NOT(B.ult(b, x)) if inclusive else B.ult(x, b))
        it.event(kind="range", pc=st.pc, start=a, end=b, inclusive=inclusive, item=x, ln=info["ln"], fn=info["f"]["path"])
        it.store_ref(st, args[0], ("o", ("spent",)))
        return opt(it, info, inside, ("b", x))

    return nat


class Printer(Model):
    """the library with the display feature; queries of the public API are uninterpreted functions"""

    def __init__(self, dump, ranges=False, order="bitwise"):
        super().__init__(dump, order=order)
        it = self.it
        self.api = {}
        for r in self.p.roots:
            if r["path"].startswith("display::") or "display::" in r["path"]:
                continue
            tr = r.get("trait") or ""
            if r.get("pub") or CORE.match(tr):
                self.api[r["path"]] = r
        it.api_hook = self.hook
        N = it.natives
        for a in ("std", "alloc"):
            for k in (a + "::fmt::format",):
                N[k] = n_format
            S = a + "::string::"
            N[S + "ToString::to_string"] = n_to_string
            N["<T as %sToString>::to_string" % S] = n_to_string
            N["<str as %sToString>::to_string" % S] = n_to_string
            N["<str as %sSpecToString>::spec_to_string" % S] = n_to_string
            N["<T as %sSpecToString>::spec_to_string" % S] = n_to_string
            for k in ("as_str", "as_mut_str"):
                N[S + "String::" + k] = n_same_text
            N[S + "String::new"] = n_empty
            N[S + "String::with_capacity"] = n_empty
            N[S + "String::push_str"] = n_push_str
            N[S + "String::push"] = n_push_char
            N[a + "::str::<impl str>::to_owned"] = n_same_text
            for s in ("<%sString as " % S,):
                for c in ("core", "std"):
                    for k in ("ops::Deref>::deref", "clone::Clone>::clone", "convert::AsRef<str>>::as_ref", "borrow::Borrow<str>>::borrow",
                              "convert::From<&str>>::from", "convert::From<&mut str>>::from", "convert::From<&%sString>>::from" % S):
                        N[s + c + "::" + k] = n_same_text
                    N[s + c + "::ops::Add<&str>>::add"] = n_add
                    N[s + c + "::default::Default>::default"] = n_empty
                    N[s + c + "::fmt::Write>::write_str"] = n_write_str
                    N[s + c + "::fmt::Write>::write_fmt"] = n_write_fmt
            for k in ("borrow::ToOwned for str>::to_owned", "borrow::<impl %s::borrow::ToOwned for str>::to_owned" % a):
                N[a + "::" + k] = n_same_text
            N["%s::str::<impl %s::borrow::ToOwned for str>::to_owned" % (a, a)] = n_same_text
            N["%s::str::<impl %s::borrow::ToOwned for str>::to_owned" % (a, a)] = n_same_text
            for x in ("slice::<impl [T]>::join", "str::<impl %s::slice::Join<&str> for [S]>::join" % a):
                N[a + "::" + x] = n_join
                N[a + "::" + x.replace("Join<&str> for", "Concat<str> for").replace("::join", "::concat")] = n_concat
            V = a + "::vec::"
            for k in ("Vec::<T>::new", "Vec::<T>::with_capacity"):
                N[V + k] = n_vec_new
            N[V + "Vec::<T, A>::push"] = n_vec_push
            N[V + "Vec::<T, A>::reserve"] = n_nothing
            N[V + "Vec::<T, A>::extend_from_slice"] = n_vec_extend_slice
            N[V + "Vec::<T, A>::iter"] = n_vec_iter
            N[V + "Vec::<T, A>::len"] = n_vec_len
            N[V + "Vec::<T, A>::is_empty"] = n_vec_is_empty
            N[V + "Vec::<T, A>::as_slice"] = n_vec_slice
            for c in ("core", "std"):
                for lt in ("'a ", ""):
                    N["<&%s%sVec<T, A> as %s::iter::IntoIterator>::into_iter" % (lt, V, c)] = n_vec_iter
                N["<%sVec<T, A> as %s::iter::IntoIterator>::into_iter" % (V, c)] = n_vec_into_iter
                for k, x in (("Iterator>::next", "n_ai_next"), ("Iterator>::size_hint", "n_si_size_hint"), ("Iterator>::count", "n_si_count")):
                    N["<%sIntoIter<T, A> as %s::iter::%s" % (V, c, k)] = getattr(natives, x)
                for ix in ("I", "usize"):
                    N["<%sVec<T, A> as %s::ops::Index<%s>>::index" % (V, c, ix)] = n_vec_index
                N["<%sVec<T, A> as %s::iter::Extend<T>>::extend" % (V, c)] = n_vec_extend
                N["<%sVec<T, A> as %s::iter::Extend<T>>::extend_one" % (V, c)] = n_vec_push
                N["<%sVec<T, A> as %s::iter::Extend<T>>::extend_one_unchecked" % (V, c)] = n_vec_push
                N["<%sVec<T, A> as %s::iter::Extend<T>>::extend_reserve" % (V, c)] = n_nothing
                N["<%sVec<T, A> as %s::default::Default>::default" % (V, c)] = n_vec_new
                N["<%sVec<T> as %s::default::Default>::default" % (V, c)] = n_vec_new
                N["<%sVec<T, A> as %s::ops::Deref>::deref" % (V, c)] = n_vec_slice
                N["<%sVec<T> as %s::iter::FromIterator<T>>::from_iter" % (V, c)] = n_collect
                N["<%sVec<T, A> as %s::convert::AsRef<[T]>>::as_ref" % (V, c)] = n_vec_slice
                N["<%sVec<T, A> as %s::borrow::Borrow<[T]>>::borrow" % (V, c)] = n_vec_slice
                N["<%sVec<T> as %s::convert::From<[T; N]>>::from" % (V, c)] = n_vec_from_array
            N[a + "::boxed::box_assume_init_into_vec_unsafe"] = n_vec_from_box
            N[a + "::slice::<impl [T]>::into_vec"] = n_vec_from_box
            N[a + "::slice::<impl [T]>::to_vec"] = n_slice_to_vec
            N[a + "::boxed::Box::<T>::new_uninit"] = lambda it, a, st, info: boxed(it, st, ("s", (None, ("s", (None,)))))
            N[a + "::boxed::Box::<T>::new"] = lambda it, a, st, info: boxed(it, st, a[0])
        for c in ("core", "std"):
            for a in ("std", "alloc"):
                S = a + "::string::String"
                for x in (S, "&'a str", "&str", "char", "&'a char", "&char"):
                    N["<%s as %s::iter::FromIterator<%s>>::from_iter" % (S, c, x)] = n_collect
                    N["<%s as %s::iter::Extend<%s>>::extend" % (S, c, x)] = n_str_extend
        N["core::iter::Iterator::unzip"] = n_unzip
        N["core::intrinsics::write_box_via_move"] = lambda it, a, st, info: a[1]
        N["std::intrinsics::write_box_via_move"] = lambda it, a, st, info: a[1]
        for c in ("core", "std"):
            N[c + "::fmt::Write::write_fmt"] = n_write_fmt
            N[c + "::fmt::Write::write_str"] = n_write_str
            N[c + "::fmt::Write::write_char"] = n_write_char
            N["<%s::string::String as %s::fmt::Write>::write_char" % (a, c)] = n_write_char
        N["std::io::_print"] = n_print
        N["std::io::stdio::_print"] = n_print
        for k in ("std::io::stdout", "std::io::stdio::stdout", "std::io::Stdout::lock", "std::io::stdio::Stdout::lock"):
            N[k] = lambda it, a, st, info: ("o", ("stdout",))
        for c in ("core", "std"):
            for k in ("Write", "Write for &std::io::Stdout", "Write for std::io::Stdout", "Write for std::io::StdoutLock<'_>"):
                for x in ("%s::io::%s::" % (c, k), "<std::io::Stdout as %s::io::Write>::" % c, "<std::io::StdoutLock<'_> as %s::io::Write>::" % c):
                    N[x + "write_fmt"] = n_stdout_fmt
                    N[x + "flush"] = n_stdout_flush
        N["CpuIdReader::cpuid1"] = n_read
        N["CpuIdReader::cpuid2"] = n_read
        it.ranges = ranges
        for c in ("core", "std"):
            for k, inc in (("Range", False), ("RangeInclusive", True)):
                N["%s::iter::range::<impl %s::iter::Iterator for %s::ops::%s<A>>::next" % (c, c, c, k)] = n_range_next(inc)
        it.foreign_hook = self.foreign
        self.products = {}
        self.exact_mul = it.mul
        it.mul = self.mul

    def mul(self, x, y, sg):
        """a product of two unknowns stands for itself: the multiset of its factors"""
        B = self.B
        if B.is_const(x) is not None or B.is_const(y) is not None:
            return self.exact_mul(x, y, sg)
        fs = []
        for v in (x, y):
            k = strip0(v)
            fs += self.products.get(k, [k])
        r = B.word(("product", tuple(sorted(fs))), len(x))
        self.products[tuple(r)] = sorted(fs)
        return r, 0

    # ---- the public queries
    def value(self, root, args, st, ty):
        it = self.it
        return it.sym(ty, ("api", root["path"], tuple(it.canon(a, st) for a in args)))

    def hook(self, fn, args, dty, st, ln, f):
        it = self.it
        root = self.api.get(self.p.fns[fn["i"]]["path"])
        if root is None:
            return NotImplemented
        tr = root.get("trait") or ""
        base = tr.split("<")[0]
        if base.endswith("clone::Clone"):
            v = it.load_ref(st, args[0])
            return v
        if base.endswith("iter::Iterator") and root["name"] == "next":
            return self.step(root, args, dty, st, ln, f)
        if base.endswith("iter::IntoIterator"):
            return NotImplemented
        if any(self.types[t]["k"] == "ref" and self.types[t]["mut"] for t in root["ins"]):
            if CORE.match(base):
                return NotImplemented
            raise Unsupported("a query that modifies its receiver: " + root["path"])
        it.event(kind="query", path=root["path"], pc=st.pc, ln=ln, fn=f["path"])
        return self.value(root, args, st, dty)

    def step(self, root, args, dty, st, ln, f):
        """next(): an enumeration has up to STEPS arbitrary items"""
        it = self.it
        B = it.B
        at = [(st.pc, it.load_ref(st, args[0]))]
        leaves = []
        while at:
            g, v = at.pop()
            if v is not None and v[0] == "o" and v[1][0] == "mux":
                _, c, x, y = v[1]
                at += [(h, w) for h, w in ((B.AND(g, B.NOT(c)), y), (B.AND(g, c), x)) if h]
                continue
            leaves.append((g, v))
        it.event(kind="step", path=root["path"], pc=st.pc, ln=ln, fn=f["path"])
        item = after = None
        for g, v in leaves:
            k, start = 0, v
            if v is not None and v[0] == "o" and v[1][0] == "after":
                k, start = v[1][1], v[1][2]
            a, b = ("o", ("after", k + 1, start)), self.item(dty, start, st, k)
            item, after = (b, a) if item is None else (it.mux(g, b, item), it.mux(g, a, after))
        it.store_ref(st, args[0], after)
        return item

    def item(self, dty, start, st, k):
        it = self.it
        t = self.types[dty]
        none = [i for i, x in enumerate(t["v"]) if x["n"] == "None"][0]
        if k >= STEPS:
            return ("e", dty, ((none, 1, ()),))
        return it.sym(dty, ("item", it.canon(start, st), k))

    # ---- everything else outside the library
    def foreign(self, fn, args, aty, dty, st, ln, f):
        it = self.it
        path = fn.get("rpath", fn["path"])
        crate = fn.get("crate")
        last = path.split("::")[-1]
        info = dict(fn=fn, aty=aty, dty=dty, ln=ln, f=f)
        kinds = [self.types[self.strip(t)].get("path", self.types[self.strip(t)]["k"]).split("::")[-1] for t in aty]
        if crate in ("minimad", "termimad"):
            if last == "from" and "TextTemplate" in path or path.endswith("TextTemplate::<'s>::new"):
                return n_template(it, args, st, info)
            if last == "expander" and kinds[:1] == ["TextTemplate"]:
                return n_expander(it, args, st, info)
            if last == "sub" and kinds[:1] == ["TextTemplateExpander"]:
                return n_sub(it, args, st, info)
            if last in ("set", "set_md") and kinds[:1] and kinds[0] in ("TextTemplateExpander", "SubTemplateExpander"):
                return n_set(it, args, st, info)
            if last == "print_expander":
                return n_print_table(it, args, st, info)
            if last == "print_text":
                return n_print_text(it, args, st, info)
        for a in args:
            v = None
            try:
                v = deref(it, st, a)
            except Unsupported:
                pass
            if is_text(v) or v is not None and v[0] == "s" and v[1] and v[1][0] is not None and v[1][0][0] == "o" and v[1][0][1][0] in ("expander", "row"):
                raise Unsupported("call of %s, which is not modelled" % path)
        return NotImplemented

    def strip(self, t):
        while self.types[t]["k"] in ("ref", "ptr"):
            t = self.types[t]["to"]
        return t
