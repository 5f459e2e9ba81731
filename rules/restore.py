"""C26: what the serde implementations of the register record write and read back."""
import same
from model import Model, Missing
from absint import St, UNIT
from natives import lit

STEPS = 5


def result(m, dty, ok, val):
    """Ok(val) when ok, otherwise an error of the format"""
    return ("e", dty, ((0, ok, (val,)), (1, m.B.NOT(ok), (("o", ("fmt_error",)),))))


def serde_natives(m, log):
    """the data format on the other side: may fail at any call, delivers arbitrary keys and values"""
    it, B = m.it, m.B
    ok = B.var(("format_ok",), 0)
    N = it.natives

    def unsupported(what):
        def nat(it, args, st, info):
            log.append(("other", what, st.pc))
            return it.sym(info["dty"], ("serde", what, len(log)))
        return nat

    def payload(dty):
        return m.types[dty]["v"][0]["f"][0][1]

    def ser_struct(it, args, st, info):
        log.append(("struct", lit(it, st, args[1]), B.is_const(args[2][1]) if args[2][0] == "b" else None, st.pc))
        return result(m, info["dty"], ok, ("o", ("ser_state",)))

    def ser_field(it, args, st, info):
        log.append(("field", lit(it, st, args[1]), args[2], dict(st.c), st.pc))
        return result(m, info["dty"], ok, UNIT)

    def ser_end(it, args, st, info):
        log.append(("end", st.pc))
        return result(m, info["dty"], ok, ("o", ("ser_done",)))

    def bump(st, ref, kind):
        x = it.load_ref(st, ref)
        k = x[1][1] if x and x[0] == "o" and x[1][0] == "access" else None
        if k is None:
            return None
        it.store_ref(st, ref, ("o", ("access", k + 1)))
        return k

    def next_element(it, args, st, info):
        k = bump(st, args[0], "seq")
        if k is None:
            return NotImplemented
        o = payload(info["dty"])
        v = m.it.sym(m.opt_payload(o), ("element", k))
        g = B.var(("more", k), 0)
        log.append(("element", k, v, g, st.pc))
        return result(m, info["dty"], ok, ("e", o, ((0, B.NOT(g), ()), (1, g, (v,)))))

    def next_key(it, args, st, info):
        k = bump(st, args[0], "map")
        if k is None:
            return NotImplemented
        o = payload(info["dty"])
        v = m.it.sym(m.opt_payload(o), ("key", k))
        g = B.var(("more", k), 0) if k < STEPS else 0
        log.append(("key", k, v, g, st.pc))
        return result(m, info["dty"], ok, ("e", o, ((0, B.NOT(g), ()), (1, g, (v,)))))

    def next_value(it, args, st, info):
        x = it.load_ref(st, args[0])
        k = x[1][1] - 1 if x and x[0] == "o" and x[1][0] == "access" else None
        if k is None:
            return NotImplemented
        ty = payload(info["dty"])
        t = m.types[ty]
        v = m.it.sym(ty, ("value", k))
        log.append(("value", k, v, t["name"], st.pc))
        return result(m, info["dty"], ok, v)

    def failing(it, args, st, info):
        return result(m, info["dty"], 0, it.sym(payload(info["dty"]), ("none",)))

    def de_struct(it, args, st, info):
        names = []
        t = args[2][1][0][1] if args[2][0] == "r" else None
        if t is not None:
            v = it.load_target(st, (t[0], t[1], None))
            names = [lit(it, st, x) for x in v[1]] if v is not None and v[0] == "s" else []
        log.append(("de_struct", lit(it, st, args[1]), names, info["aty"][3], st.pc))
        return it.sym(info["dty"], ("de_struct",))

    S, D = "serde::Serializer::", "serde::de::"
    N["serde::Serializer::serialize_struct"] = ser_struct
    N["serde::ser::SerializeStruct::serialize_field"] = ser_field
    N["serde::ser::SerializeStruct::skip_field"] = unsupported("skip_field")
    N["serde::ser::SerializeStruct::end"] = ser_end
    N["serde::Deserializer::deserialize_struct"] = de_struct
    N["serde::de::SeqAccess::next_element"] = next_element
    N["serde::de::MapAccess::next_key"] = next_key
    N["serde::de::MapAccess::next_value"] = next_value
    for f in m.p.fns:
        if f["path"].endswith("::de::missing_field"):
            N[f["path"]] = failing
    return ok


def find(p, self_has, name, trait=None):
    for r in p.roots:
        if r["name"] == name and self_has in r["path"] and (trait is None or (r.get("trait") or "").startswith(trait)):
            return r
    return None


def c26(ctx):
    ctx.explanation = (
        "Value-flow over MIR of the serde implementations of the CPUID result, with the data format left arbitrary (any order of keys, any values, "
        "failure at any call): serialisation must write each of the four stored registers exactly once, unconditionally, under distinct names; "
        "each written name must be recognised as text, bytes and index of one field; from a sequence the k-th element and from a map the value under "
        "a name must be restored into exactly the register that was written under it, for every interleaving of keys, and nothing else accepted."
    )
    ctx.assumptions += ["serde's data formats deliver what was written", "serde::missing_field fails for integers, as documented"]
    p = ctx.prog("serialize")
    log = []
    m = Model(p, order="bitwise")
    ok = serde_natives(m, log)
    B = m.B
    ser = find(p, "Serialize for CpuIdResult", "serialize", "serde::Serialize")
    de = find(p, "Deserialize<'de> for CpuIdResult>", "deserialize", "serde::Deserialize")
    if ser is None or de is None:
        raise Missing("serde implementations of CpuIdResult")
    ty = m.types[ser["ins"][0]]["to"]
    regs = [f[0] for f in m.types[ty]["v"][0]["f"]]
    v = m.it.sym(ty, ("any", "CpuIdResult"))
    st = St({}, 1)
    res = m.run(ser, [m.it.newcell(st, v), ("o", ("serializer",))], st)
    if res.err:
        return ctx.bad("serialize", "serialisation cannot be analysed: %s" % res.err, at=ser["span"])
    names, seen = {}, {}
    fields = [e for e in log if e[0] == "field"]
    for e in [e for e in log if e[0] == "other"]:
        ctx.bad("serialize:" + e[1], "a register may be skipped in serialisation", at=ser["span"])
    decl = [e for e in log if e[0] == "struct"]
    if len(decl) != 1 or decl[0][2] != len(fields):
        ctx.bad("serialize:count", "%d entries are written, %s announced" % (len(fields), decl[0][2] if decl else "no record"), at=ser["span"])
    order = []
    for e in fields:
        hit = [k for k, r in enumerate(regs) if not same.diff(m, 1, e[2], e[3], v[1][k], {})]
        if len(hit) != 1 or B.AND(ok, B.NOT(e[4])):
            ctx.bad("serialize:%s" % e[1], "the entry %s is not one stored register, always written" % e[1], at=ser["span"])
            continue
        if e[1] in names or hit[0] in seen or e[1] is None:
            ctx.bad("serialize:%s" % e[1], "the name %s or its register is written twice" % e[1], at=ser["span"])
            continue
        names[e[1]], seen[hit[0]] = hit[0], e[1]
        order.append(e[1])
        ctx.good()
        ctx.sample("%s is written as %s" % (regs[hit[0]], e[1]))
    for k, r in enumerate(regs):
        if k not in seen:
            ctx.bad("serialize:lost:%s" % r, "register %s is not serialised" % r, at=ser["span"])
    if [e for e in log if e[0] == "end"] == []:
        ctx.bad("serialize:end", "the record is never finished", at=ser["span"])
    if len(order) != len(regs):
        return
    # ---------------------------------------------------------- names back to fields
    log.clear()
    st = St({}, 1)
    r = m.run(de, [("o", ("deserializer",))], st)
    d = [e for e in log if e[0] == "de_struct"]
    if r.err or len(d) != 1:
        return ctx.bad("deserialize", "deserialisation cannot be analysed: %s" % (r.err or "not a record"), at=de["span"])
    if [n for n in d[0][2] if n in order] != order:
        ctx.bad("deserialize:order", "records are written as %s but announced as %s when read" % (order, d[0][2]), at=de["span"])
    else:
        ctx.good()
    FV, V = "__FieldVisitor", "__Visitor"
    field = {}
    for how in ("visit_str", "visit_bytes", "visit_u64"):
        root = find(p, FV, how)
        if root is None:
            ctx.bad("deserialize:" + how, "names cannot be read back by %s" % how, at=de["span"])
            continue
        for k, n in enumerate(order):
            st = St({}, 1)
            if how == "visit_u64":
                a = ("b", B.const(k, 64))
            else:
                cell = m.it.newcell(st, ("s", tuple(("b", B.const(c, 8)) for c in n.encode())))
                t = cell[1][0][1]
                a = ("r", ((1, (t[0], t[1], (B.const(0, 64), B.const(len(n), 64)))),))
            r = m.run(root, [UNIT, a], st)
            f = None
            if not r.err and r.val is not None and r.val[0] == "e":
                for vi, g, fs in r.val[2]:
                    if vi == 0 and g == 1 and fs[0] is not None and fs[0][0] == "e":
                        f = [x[0] for x in fs[0][2] if x[1] == 1]
            if not f:
                ctx.bad("deserialize:%s:%s" % (how, n), "the written name %s (entry %d) is not recognised by %s%s" % (n, k, how, ": " + r.err if r.err else ""), at=root["span"])
            elif field.setdefault(n, f[0]) != f[0]:
                ctx.bad("deserialize:%s:%s" % (how, n), "%s reads %s as another register" % (how, n), at=root["span"])
            else:
                ctx.good()
    if len(set(field.values())) != len(order):
        return ctx.bad("deserialize:fields", "two written names are read as one", at=de["span"])
    # ---------------------------------------------------------- sequences
    root = find(p, V, "visit_seq")
    if root is None:
        ctx.bad("deserialize:visit_seq", "records cannot be read from sequences", at=de["span"])
    else:
        log.clear()
        st = St({}, 1)
        r = m.run(root, [UNIT, ("o", ("access", 0))], st)
        if r.err or r.val is None or r.val[0] != "e":
            ctx.bad("deserialize:visit_seq", "visit_seq cannot be analysed: %s" % r.err, at=root["span"])
        else:
            good = [(g, fs) for vi, g, fs in r.val[2] if vi == 0]
            got = B.AND(r.st.pc, good[0][0]) if good else 0
            els = {}
            for e in log:
                if e[0] == "element":
                    els[e[1]] = e
            want = ok
            for k in range(len(order)):
                want = B.AND(want, B.var(("more", k), 0))
            if B.XOR(got, want):
                ctx.bad("deserialize:visit_seq:when", "a record is not restored exactly from sequences of all its entries", at=root["span"])
            else:
                ctx.good()
            for k, n in enumerate(order):
                if got and (k not in els or same.diff(m, got, good[0][1][0][1][names[n]], r.st.c, els[k][2], {})):
                    ctx.bad("deserialize:visit_seq:" + n, "entry %d of a sequence is not restored into register %s" % (k, regs[names[n]]), at=root["span"])
                else:
                    ctx.good()
                    ctx.sample("element %d is restored into %s" % (k, regs[names[n]]))
    # ---------------------------------------------------------- maps
    root = find(p, V, "visit_map")
    if root is None:
        return ctx.bad("deserialize:visit_map", "records cannot be read from maps", at=de["span"])
    log.clear()
    st = St({}, 1)
    r = m.run(root, [UNIT, ("o", ("access", 0))], st)
    if r.err or r.val is None or r.val[0] != "e":
        return ctx.bad("deserialize:visit_map", "visit_map cannot be analysed: %s" % r.err, at=root["span"])
    good = [(g, fs) for vi, g, fs in r.val[2] if vi == 0]
    got = B.AND(r.st.pc, good[0][0]) if good else 0
    keys = {e[1]: e for e in log if e[0] == "key"}
    vals = {}
    for e in log:
        if e[0] == "value" and e[3] == "u32":
            vals[e[1]] = e[2]
    ctx.count("map_steps", len(keys))

    def is_key(k, n):
        return [g for vi, g, fs in keys[k][2][2] if vi == field[n]][0]

    # complete maps: the four names once each, in any order, then the end
    n_ = len(order)
    full = ok
    for k in range(n_):
        full = B.AND(full, B.var(("more", k), 0))
    full = B.AND(full, B.NOT(B.var(("more", n_), 0)))
    for n in order:
        once = 0
        for k in range(n_):
            only = is_key(k, n)
            for j in range(n_):
                if j != k:
                    only = B.AND(only, B.NOT(is_key(j, n)))
            once = B.OR(once, only)
        full = B.AND(full, once)
    d = B.AND(full, B.NOT(got))
    if d:
        ctx.bad("deserialize:visit_map:refused", "a record with every name once is refused", at=root["span"])
    else:
        ctx.good()
    for n in order:
        x = good[0][1][0][1][names[n]] if good else None
        hit = 0
        for k in keys:
            if k in vals:
                e = B.AND(B.AND(B.var(("more", k), 0), is_key(k, n)), got)
                for j in range(k):
                    e = B.AND(e, B.var(("more", j), 0))
                if e:
                    hit = B.OR(hit, B.AND(e, B.NOT(same.diff(m, e, x, r.st.c, vals[k], {}))))
        if B.AND(got, B.NOT(hit)):
            ctx.bad("deserialize:visit_map:" + n, "register %s is not restored from the value under the name %s" % (regs[names[n]], n), at=root["span"])
        else:
            ctx.good()
            ctx.sample("the value under %s, at whatever position, is restored into %s" % (n, regs[names[n]]))
    ctx.count("entries_written", len(order))
    ctx.floor("entries_written", 4)
    ctx.floor("map_steps", STEPS)
