"""C19 (Debug), C25 (Display of enumerated values and strings): what the textual forms show."""
import re
import enums
import same
import show
import text
import walk
from model import Model, Missing, Subject
from absint import St, UNIT, Unsupported

DEBUG, DISPLAY = "core::fmt::Debug", "core::fmt::Display"
# labels of the debug rendering that abbreviate the name of the query they show
ALIAS = {
    "number": "level_number",
    "type": "level_type",
    "next_apic_id": "shift_right_for_next_apic_id",
    "brand_string": "as_str",
    "extended_state_iter": "iter",
    "sgx_section_iter": "iter",
}
RAW = {"ecx_features": "ecx", "edx_features": "edx"}


def query_of(acc, label):
    for n in (label, "get_" + label, ALIAS.get(label), "has_" + label, "is_" + label):
        if n in acc:
            return n
    return None


def field_of(m, ty, label):
    t = m.types[ty]
    if t["k"] != "adt" or t["kind"] != "struct":
        return None
    names = [f[0] for f in t["v"][0]["f"]]
    for n in (label, RAW.get(label)):
        if n in names:
            return names.index(n)
    return None


def c19(ctx):
    ctx.explanation = (
        "Value-flow through the formatting code: every Debug implementation of a reported value (written by hand or derived) is analysed over MIR on "
        "the value as the library builds it from arbitrary registers. Each labelled entry handed to the formatter must be, as a canonical Boolean "
        "function, what the query of that label's name returns for the same value (or the stored register of that name). List renderings are "
        "analysed as loops over the enumeration: the loop starts at the enumeration's own position, every step yields exactly one entry equal to "
        "the enumeration's item, ends exactly when it ends, and carries no other state from step to step. The rendered value is unchanged."
    )
    ctx.assumptions += ["core::fmt builders print the label and the Debug form of the value they are given"]
    p = ctx.prog()
    m0 = Model(p)
    gs = sorted(m0.getter_roots())

    def work(ctx, g):
        for order in ("major", "bitwise"):
            m = Model(p, order=order)
            if g is None:
                subs = [x.subj for x in walk.self_runs(m)[:1]]
            else:
                subs = [s for s in walk.subjects(m, [g]) if s.val is not None and s.guard]
            seen, last = set(), order == "bitwise"
            todo = []
            for s in subs:
                if s.ty not in seen and m.trait(s.ty, DEBUG, "fmt") is not None:
                    seen.add(s.ty)
                    todo.append(s)
            errs = [e for s in todo for e in one(ctx, m, s, last)]
            if not errs:
                break

    ctx.pmap([None] + gs + ["free"], lambda c, g: free(c, p) if g == "free" else work(c, g))
    ctx.floor("labels_compared", 200)
    ctx.floor("list_renderings", 6)
    ctx.floor("values_rendered", 30)


def free(ctx, p):
    """result types clients hold themselves"""
    m = Model(p, order="bitwise")
    seen = set()
    for r in p.roots:
        if not (r.get("trait") or "").startswith(("core::fmt::Debug", "std::fmt::Debug")) or r["name"] != "fmt":
            continue
        ty = m.types[r["ins"][0]].get("to", r["ins"][0])
        t = m.types[ty]
        if t["k"] != "adt" or not t["local"] or t["kind"] != "struct" or t.get("path") not in ("CpuIdResult", "CacheInfo"):
            continue
        s = Subject(t["path"], ty, m.it.sym(ty, ("any", t["path"])), St({}, 1), 1)
        seen.add(t["path"])
        one(ctx, m, s, True)
    if "CpuIdResult" not in seen:
        raise Missing("Debug of CpuIdResult")


def one(ctx, m, s, final):
    """verdicts for one rendered value; with final unset, returns ['retry'] instead of giving up"""
    B = m.B
    name = m.tpath(s.ty)
    if walk.is_iter(m, s):
        r = walk.fmt_run(m, s, DEBUG, walk.hz_of(s) if s.sec != "get_cache_info" else 3)
    else:
        r = walk.fmt_run(m, s, DEBUG, 48)
    at = r.root["span"]
    key = "%s:Debug" % name
    if r.err:
        if not final:
            return ["retry"]
        ctx.bad(key, "Debug of %s cannot be analysed: %s" % (name, r.err), at=at)
        return []
    out = []
    fields = r.kinds("fmt_field")
    acc = m.accessors(s.ty)
    for e in fields:
        e = formatted(m, e)
        L = e["name"]
        if L is None:
            ctx.note("%s: entry without a constant label" % key)
            continue
        q = query_of(acc, L)
        k = field_of(m, s.ty, L)
        if q is not None:
            x = m.call(s, q, horizon=48)
            if x.err:
                out.append((L, "%s cannot be analysed: %s" % (q, x.err), None))
                continue
            care = B.AND(e["pc"], x.st.pc)
            d = same.diff(m, care, e["val"], e["st"], x.val, x.st.c)
            what = q + "()"
        elif k is not None and s.val[0] == "s":
            d = same.diff(m, e["pc"], e["val"], e["st"], s.val[1][k], s.st.c)
            what = "the stored " + L
        else:
            ctx.note("%s: label %s names no query and no field" % (key, L))
            continue
        ctx.count("labels_compared")
        if d:
            out.append((L, "the entry labelled %s is not %s" % (L, what), m.describe(d)))
        else:
            ctx.good()
            ctx.sample("%s: %s = %s" % (name, L, what))
    if walk.is_iter(m, s) and not fields:
        out += listing(ctx, m, s, r)
    if hasattr(r, "cell") and r.st.pc:
        d = same.diff(m, B.AND(r.st.pc, s.guard), r.cell, r.st.c, s.val, s.st.c)
        if d:
            out.append(("self", "rendering changes the value", m.describe(d)))
        else:
            ctx.good()
    ctx.count("values_rendered")
    for L, msg, w in out:
        ctx.bad("%s:%s" % (key, L), "Debug of %s: %s" % (name, msg), at=at, **({"witness": w} if w else {}))
    return []


def formatted(m, e):
    """an entry given as format_args! of one value, in whatever notation, is an entry of that value"""
    v, st = e["val"], St(e["st"], e["pc"])
    while v is not None and v[0] == "r":
        try:
            v = m.it.load_ref(st, v)
        except Unsupported:
            return e
    if v is None or v[0] != "o" or not isinstance(v[1], tuple) or v[1][0] != "fmtargs":
        return e
    try:
        ps = show.expand(m, e["pc"], st, v, 0)
    except show.Unclear:
        return e
    args = [x for x in ps if x[0] == "arg"]
    lits = b" ".join(x[1] for x in ps if x[0] == "lit")
    if len(args) == 1 and "hex" in args[0][1].lower():
        lits = lits.replace(b"0x", b"")
    if len(args) != 1 or "precision" in args[0][5] or "dynprecision" in args[0][5] or re.search(rb"[0-9-]", lits):
        return e
    return dict(e, val=args[0][2], ty=args[0][3], st=args[0][4])


def listing(ctx, m, s, r):
    """r: the rendering loop, analysed up to the head of its second step"""
    B = m.B
    out = []
    ctx.count("list_renderings")
    root = m.trait(s.ty, "core::iter::Iterator", "next")
    st = St(dict(s.st.c), s.guard)
    ref = m.it.newcell(st, s.val)
    n = m.run(root, [ref], st, horizon=walk.hz_of(s) if s.sec != "get_cache_info" else 3)
    if n.err or n.val is None:
        return [("next", "the enumeration cannot be analysed: %s" % n.err, None)]
    some, fs = m.it.some(n.val)
    some = B.AND(n.st.pc, some)
    heads = r.kinds("next_head")
    cuts = r.kinds("cut_next")
    entries = r.kinds("fmt_entry")
    if not heads:
        return [("list", "the rendering does not step through the enumeration", None)]
    start, again = heads[0], [h for h in heads[1:]]
    d = B.AND(B.AND(s.guard, n.st.pc), B.NOT(start["pc"]))
    if d:
        out.append(("start", "the enumeration is not always listed", m.describe(d)))
    d = same.diff(m, B.AND(start["pc"], n.st.pc), start["val"], start["st"], s.val, s.st.c)
    if d:
        out.append(("start", "the listing does not start at the enumeration's position", m.describe(d)))
    got = 0
    for e in entries:
        if B.AND(got, e["pc"]):
            out.append(("entry", "a step lists more than one entry", m.describe(B.AND(got, e["pc"]))))
        got = B.OR(got, e["pc"])
        d = same.diff(m, B.AND(e["pc"], some), e["val"], e["st"], fs[0] if fs else None, n.st.c)
        if d:
            out.append(("entry", "the entry is not the enumeration's item", m.describe(d)))
    d = B.AND(n.st.pc, B.XOR(got, some))
    if d:
        out.append(("entry", "an item is left out or an entry has no item", m.describe(d)))
    cont = 0
    for h in again:
        cont = B.OR(cont, h["pc"])
        d = same.diff(m, B.AND(h["pc"], some), h["val"], h["st"], m.it.load_ref(n.st, ref), n.st.c)
        if d:
            out.append(("step", "the listing's position after an item is not the enumeration's", m.describe(d)))
        for c, why in carried(m, start, h):
            out.append(("state", why, None))
    d = B.AND(n.st.pc, B.XOR(cont, some))
    if d:
        out.append(("end", "the listing goes on after the end or stops after an item", m.describe(d)))
    if not out:
        ctx.good(6)
        ctx.sample("%s: one entry per item, from the first to the last" % m.tpath(s.ty))
    return out


def carried(m, a, b):
    """state, other than the enumeration itself, that differs from one step to the next"""
    own = [t for h in (a, b) if h["val"] and h["val"][0] == "r" for g, t in h["val"][1]]
    sa, sb = (St({k: v for k, v in h["st"].items()}, h["pc"]) for h in (a, b))
    for t in own:
        for st in (sa, sb):
            if t[0] in st.c:
                m.it.store_target(st, (t[0], t[1], None), UNIT)
    out = []
    for c, x in sa.c.items():
        y = sb.c.get(c)
        if x is None or y is None or x == y or x[0] in "or" or y[0] in "or":
            continue
        if same.diff(m, b["pc"], x, sa.c, y, sb.c):
            out.append((c, "the listing loop carries state besides the enumeration"))
    return out[:1]


# ------------------------------------------------------------------ C25
# words by which a text may name a variant, where they are not the words of the variant's own name
WORDS = {("DatType", "Null"): ("null", "invalid"), ("TopologyType", "Invalid"): ("invalid", "none")}
TEXTS = {"VendorInfo": "as_str", "SoCVendorBrand": "as_str", "ProcessorBrandString": "as_str"}
FLOOR25 = 8


def norm(b):
    return re.sub(r"[^a-z0-9]", "", b.decode("utf8", "replace").lower())


def words(name):
    return [w.lower() for w in re.findall(r"[A-Z]+(?![a-z])[0-9]*|[A-Z][a-z0-9]*|[a-z0-9]+", name)]


def c25(ctx):
    ctx.explanation = (
        "Output analysis of every Display implementation (and every hand-written Debug) of a public enumeration, over MIR: for each variant, with an "
        "arbitrary payload, the sequence of literal pieces and formatted arguments handed to the formatter is derived. It must be one text per "
        "variant, contain the words of the variant's own name, differ from the text of every other variant, and print the whole payload exactly "
        "once where there is one. String values must print exactly the string their as_str reports; a cache descriptor its number, kind and text."
    )
    ctx.assumptions += ["integers are printed by core in a way that determines them"]
    p = ctx.prog()
    jobs = []
    m0 = Model(p)
    for r in p.roots:
        tr = r.get("trait") or ""
        if r["name"] != "fmt" or not re.match(r"(core|std)::fmt::(Display|Debug)\b", tr) or r["derived"]:
            continue
        ty = m0.types[r["ins"][0]].get("to")
        t = m0.types[ty] if ty is not None else {"k": ""}
        if t["k"] != "adt" or not t["local"]:
            continue
        if t["kind"] == "enum" and len(t["v"]) > 1 or (t["kind"] == "struct" and "Display" in tr and "InternalBitFlags" not in t["path"]):
            jobs.append(r["i"])
    by = {r["i"]: r for r in p.roots}

    def work(ctx, i):
        r = by[i]
        m = Model(p, order="major")
        t = m.types[m.types[r["ins"][0]]["to"]]
        (enum_text if t["kind"] == "enum" else value_text)(ctx, m, r, t)

    ctx.pmap(jobs, work)
    ctx.floor("enumerations", 7)
    ctx.floor("variants", 40)
    ctx.floor("string_values", 2)


def run_fmt(ctx, m, r, val):
    st = St({}, 1)
    a = m.it.newcell(st, val)
    res = m.run(r, [a, m.it.newcell(st, ("o", ("formatter",)))], st, 48)
    if res.err:
        ctx.bad(r["path"], "%s cannot be analysed: %s" % (r["path"], res.err), at=r["span"])
        return None
    return res


def printed(m, res, care):
    ok = m.B.var(("fmt_ok",), 0)
    return show.pieces(m, res.events, m.B.AND(care, ok))


def constant(m, care, x):
    """a printed number that is the same for every value of the variant is part of its fixed text"""
    if x[0] != "arg" or x[1] not in ("display", "debug") or x[5] or x[6] == 0:
        return x
    B = m.B
    v, ty = x[2], m.types[x[3]] if x[3] is not None else None
    while ty is not None and ty["k"] == "ref":
        ty = m.types[ty["to"]]
    if ty is None or ty["k"] not in ("uint", "int"):
        return x
    for _ in range(4):
        if v is not None and v[0] == "r":
            v = m.it.load_ref(St(x[4], B.AND(care, x[6])), v)
    if v is None or v[0] != "b":
        return x
    n = show.number(m, B.AND(care, x[6]), v)
    if n is None:
        return x
    if ty["k"] == "int" and n >> (len(v[1]) - 1):
        n -= 1 << len(v[1])
    return ("lit", str(n).encode())


def enum_text(ctx, m, r, t):
    ty = m.types[r["ins"][0]]["to"]
    ctx.count("enumerations")
    v = m.it.sym(ty, ("any", r["path"]))
    res = run_fmt(ctx, m, r, v)
    if res is None:
        return
    seen = {}
    for vi, g, fs in v[2]:
        name = t["v"][vi]["n"]
        key = "%s:%s" % (r["path"], name)
        ctx.count("variants")
        try:
            ps = [constant(m, g, x) for x in printed(m, res, g)]
        except show.Unclear as e:
            ctx.bad(key, "the text of %s::%s cannot be derived: %s" % (t["path"], name, e), at=r["span"])
            continue
        flat = b"".join(x[1] if x[0] == "lit" else b"\0" for x in ps)
        args = [x for x in ps if x[0] == "arg"]
        txt = norm(flat)
        want = WORDS.get((t["path"].split("::")[-1], name))
        if want is not None:
            ok = any(w in txt for w in want)
        else:
            ok = all(w in txt for w in words(name))
        if not ok:
            ctx.bad(key, "the text of %s::%s is %r, which does not name it" % (t["path"], name, flat.decode("utf8", "replace")), at=r["span"])
        elif txt in seen:
            ctx.bad(key, "%s::%s and %s have the same text %r" % (t["path"], name, seen[txt], flat.decode("utf8", "replace")), at=r["span"])
        else:
            ctx.good()
        seen[txt] = name
        if len(args) != len(fs):
            ctx.bad(key + ":payload", "%s::%s has %d payload values, its text prints %d values" % (t["path"], name, len(fs), len(args)), at=r["span"])
            continue
        for x, f in zip(args, fs):
            d = same.diff(m, m.B.AND(g, x[6]), x[2], x[4], f, res.st.c)
            if d or x[1] not in ("display", "debug") or "precision" in x[5]:
                ctx.bad(key + ":payload", "the text of %s::%s does not print its payload" % (t["path"], name), at=r["span"], **({"witness": m.describe(d)} if d else {}))
            else:
                ctx.good()
        ctx.sample("%s::%s prints %r" % (t["path"], name, flat.replace(b"\0", b"{payload}").decode("utf8", "replace")))
    # a fixed text must not be readable as another variant's payload text
    fixed = [x for x in seen if "\0" not in x]
    if len(set(seen)) == len(seen):
        ctx.good()


def value_text(ctx, m, r, t):
    """texts of string values; the descriptor line"""
    ty = m.types[r["ins"][0]]["to"]
    path = t["path"]
    key = r["path"]
    if path.split("::")[-1] == "CacheInfo":
        return descriptor(ctx, m, r, t)
    acc = [n for n in ("as_str",) if n in m.accessors(ty)]
    if not acc:
        return ctx.note("%s: textual form of a value that is not a string" % path)
    ctx.count("string_values")
    v = m.it.sym(ty, ("any", path))
    res = run_fmt(ctx, m, r, v)
    if res is None:
        return
    s = Subject(path, ty, v, St({}, 1), 1)
    x = m.call(s, acc[0])
    try:
        ps = printed(m, res, 1)
    except show.Unclear as e:
        return ctx.bad(key, "the text of %s cannot be derived: %s" % (path, e), at=r["span"])
    if x.err:
        return ctx.bad(key, "%s::%s cannot be analysed: %s" % (path, acc[0], x.err), at=r["span"])
    if len(ps) != 1 or ps[0][0] != "arg" or ps[0][1] != "display" or "precision" in ps[0][5] or "dynprecision" in ps[0][5]:
        return ctx.bad(key, "the text of %s is not just its string" % path, at=r["span"])
    d = same.diff(m, m.B.AND(ps[0][6], x.st.pc), ps[0][2], ps[0][4], x.val, x.st.c)
    if d:
        return ctx.bad(key, "the text of %s is not what %s reports" % (path, acc[0]), at=r["span"], witness=m.describe(d))
    ctx.good()
    ctx.sample("%s prints exactly %s()" % (path, acc[0]))


def descriptor(ctx, m, r, t):
    ty = m.types[r["ins"][0]]["to"]
    v = m.it.sym(ty, ("any", "CacheInfo"))
    names = [f[0] for f in t["v"][0]["f"]]
    if "num" not in names or "typ" not in names:
        raise Missing("fields num and typ of CacheInfo")
    num, typ = v[1][names.index("num")], v[1][names.index("typ")]
    res = run_fmt(ctx, m, r, v)
    if res is None:
        return
    ctx.count("string_values")
    tt = m.types[typ[1]]
    s = Subject("CacheInfo", ty, v, St({}, 1), 1)
    desc = m.call(s, "desc")
    seen = {}
    for vi, g, fs in typ[2]:
        name = tt["v"][vi]["n"]
        key = "%s:%s" % (r["path"], name)
        try:
            ps = printed(m, res, g)
        except show.Unclear as e:
            ctx.bad(key, "the text of a cache descriptor cannot be derived: %s" % e, at=r["span"])
            continue
        lits = norm(b"".join(x[1] for x in ps if x[0] == "lit"))
        args = [x for x in ps if x[0] == "arg"]
        if lits in seen:
            ctx.bad(key, "descriptors of kind %s and %s print the same kind" % (name, seen[lits]), at=r["span"])
        seen[lits] = name
        if name not in ("General",) and words(name)[0][:5] not in lits:
            ctx.bad(key, "descriptors of kind %s print %r" % (name, lits), at=r["span"])
        nums = [x for x in args if not same.diff(m, m.B.AND(g, x[6]), x[2], x[4], num, {})]
        dd = [x for x in args if not same.diff(m, m.B.AND(g, x[6]), x[2], x[4], desc.val, desc.st.c)]
        if not nums or not dd or len(args) != 2:
            ctx.bad(key, "a cache descriptor does not print its number and its description", at=r["span"])
        else:
            ctx.good(3)
    ctx.sample("CacheInfo prints its number, its kind and its description")
