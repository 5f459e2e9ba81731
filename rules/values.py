"""C13 (strings), C15 (vendor and hypervisor identification), C16 (cache descriptors)."""
import descriptors
import enums
import expect
import fields
import overrides
import text
import total
import walk
from fields import SPEC
from model import Model, Missing, Subject
from natives import utf8_valid
from spec import load, AMD_RESERVED
from absint import St

# documented sources of the text values, in byte order
ORDER = ("eax", "ebx", "ecx", "edx")
STRINGS = {
    ("get_vendor_info", (), "as_str"): [(0, 0, "ebx"), (0, 0, "edx"), (0, 0, "ecx")],
    ("get_soc_vendor_info", ("get_vendor_brand",), "as_str"): [(0x17, s, r) for s in (1, 2, 3) for r in ORDER],
    ("get_processor_brand_string", (), "as_str"): [(l, 0, r) for l in (0x80000002, 0x80000003, 0x80000004) for r in ORDER],
}
CUT = {"get_processor_brand_string"}


def spec_text(m, getter, src):
    """([(guard, text)] for valid bytes, guard of validity)"""
    B = m.B
    bs = []
    for l, s, r in src:
        w = m.ev.word(l, s, r)
        bs += [tuple(w[i : i + 8]) for i in (0, 8, 16, 24)]
    if getter not in CUT:
        return ("var", tuple(bs), B.const(len(bs), 64)), utf8_valid(m.it, bs)
    ln = B.const(len(bs), 64)
    ok = utf8_valid(m.it, bs)
    hits, rest = [], 1
    for k, b in enumerate(bs):
        z = B.eq(b, B.const(0, 8))
        hits.append(B.AND(rest, z))
        rest = B.AND(rest, B.NOT(z))
    ok = B.AND(rest, ok)
    for k in range(len(bs) - 1, -1, -1):
        ln = B.mux(hits[k], B.const(k, 64), ln)
        ok = B.OR(ok, B.AND(hits[k], utf8_valid(m.it, bs[:k])))
    return ("trim", ("var", tuple(bs), ln)), ok


def same_valid(B, care, T):
    """texts may carry a length that only agrees where they are valid"""
    return T


def c13(ctx):
    ctx.explanation = (
        "Bit-provenance of text: every byte of the vendor, brand and SoC brand strings is tracked through the payload's memory layout, slicing, "
        "UTF-8 validation and trimming to register bits, and compared with the documented register order; the condition under which the fixed "
        "invalid text appears must equal the exact Boolean function 'these bytes are not UTF-8' (a DFA over the documented bytes)."
    )
    ctx.assumptions += ["str::from_utf8 and str::trim of core follow their documentation"]

    def work(ctx, k):
        getter, path, name = k
        m = Model(ctx.prog())
        B = m.B
        s = m.payload(getter)
        for a in path:
            s = m.nested(s, a)
        key = "%s.%s" % (s.label, name)
        r = m.call(s, name)
        ctx.count("strings_compared")
        if r.err:
            return ctx.bad(key, "text of %s cannot be derived: %s" % (key, r.err), at=r.root["span"])
        T, ok = spec_text(m, getter, STRINGS[k])
        care = r.st.pc
        if B.AND(s.guard, B.NOT(care)):
            return ctx.bad(key, "%s does not always return" % key, at=r.root["span"])
        got = text.text(m.it, r.st, r.val)
        if got is None:
            return ctx.bad(key, "%s is not a text value" % key, at=r.root["span"])
        valid = B.AND(care, ok)
        d = 0
        for g, x in got:
            d = B.OR(d, text.differ(B, B.AND(valid, g), x, T))
        if d:
            return ctx.bad(key, "%s is %s; documented: the bytes of %s" % (key, text.show(m, got), src(STRINGS[k])), at=r.root["span"], witness=m.describe(d))
        ctx.good(len(STRINGS[k]))
        ctx.count("registers_compared", len(STRINGS[k]))
        texts = set()
        for g, x in got:
            bad = B.AND(B.AND(care, B.NOT(ok)), g)
            if not bad:
                continue
            if x[0] != "const" or b"invalid" not in x[1].lower():
                return ctx.bad(key, "%s is %s although its bytes are not valid UTF-8" % (key, text.show1(m, x)), at=r.root["span"], witness=m.describe(bad))
            texts.add(x[1])
        if len(texts) != 1:
            return ctx.bad(key, "%s has %d different texts for invalid bytes" % (key, len(texts)), at=r.root["span"])
        ctx.good()
        ctx.sample("%s = bytes of %s, or %r exactly when those are not UTF-8" % (key, src(STRINGS[k]), texts.pop().decode()))

    ctx.prog()
    ctx.pmap(list(STRINGS), work)
    ctx.floor("strings_compared", 3)
    ctx.floor("registers_compared", 27)


def src(rs):
    return ", ".join("%X/%d:%s" % x for x in rs[:4]) + (", ..." if len(rs) > 4 else "")


# ------------------------------------------------------------------ C15
def cofactor(B, f, asg, memo):
    """f with the variables of asg ({(base, bit): value}) fixed"""
    if f < 2:
        return f
    r = memo.get(f)
    if r is None:
        v = asg.get(B.names[B.lvl[f]])
        if v is not None:
            r = cofactor(B, B.hi[f] if v else B.lo[f], asg, memo)
        else:
            r = B.mk(B.lvl[f], cofactor(B, B.lo[f], asg, memo), cofactor(B, B.hi[f], asg, memo))
        memo[f] = r
    return r


VENDORS = ("AuthenticAMD", "HygonGenuine", "GenuineIntel", "CentaurHauls")


def assign(m, sig):
    out = {}
    b = sig.encode()
    for i, reg in enumerate(("ebx", "edx", "ecx")):
        w = int.from_bytes(b[4 * i : 4 * i + 4], "little")
        for k in range(32):
            out[(("cpuid", 0, 0, reg), k)] = (w >> k) & 1
    return out


class VendorSplit:
    def __init__(self, m):
        self.m = m
        self.asg = [assign(m, v) for v in VENDORS]
        self.memo = [{}, {}, {}, {}]

    def wrong(self, f):
        """inputs on which f depends on the vendor registers other than through the classification"""
        B = self.m.B
        if f < 2:
            return 0
        a, h, i, o = (cofactor(B, f, self.asg[k], self.memo[k]) for k in range(4))
        want = B.ite(self.m.ev.amd, a, B.ite(self.m.ev.intel, i, o))
        return B.OR(B.XOR(f, want), B.AND(self.m.ev.amd, B.XOR(a, h)))


def bits_in(v, out):
    """every Boolean function inside a value"""
    if v is None:
        return
    if v[0] == "b":
        out.extend(v[1])
    elif v[0] == "s":
        for x in v[1]:
            bits_in(x, out)
    elif v[0] == "e":
        for a, g, fs in v[2]:
            out.append(g)
            for x in fs:
                bits_in(x, out)
    elif v[0] == "r":
        out.extend(g for g, t in v[1])


def vendor_bits(B, f):
    return any(b[0] == "cpuid" and b[1] == 0 and b[3] != "eax" for b, k in B.support(f))


def c15(ctx):
    ctx.explanation = (
        "Dependence analysis: every Boolean function the analysis derives for leaf queries, accessors and read conditions, which mentions the vendor "
        "registers, must equal the same function with the vendor replaced by its class (AMD: AuthenticAMD or HygonGenuine; Intel: GenuineIntel; "
        "other), as canonical forms over all 2^96 vendor strings; the classification itself is compared where its effect is documented "
        "(vendor-reserved leaves, vendor-only flags, family/model formulas). Hypervisor names are compared with the published signatures."
    )
    m0 = Model(ctx.prog())
    gs = sorted(m0.getter_roots())

    def work(ctx, g):
        if g == "hypervisor":
            fields.run_class(ctx, "C15", 1)
            ctx.explanation = ""
            return
        m = Model(ctx.prog())
        B = m.B
        vs = VendorSplit(m)
        for run in walk.runs(m, [g], traits=False, steps=1):
            r = run.res
            if g == "get_vendor_info" and run.subj is not None:
                continue
            if r.err:
                ctx.bad(run.label + ":unanalysed", "%s: %s" % (run.label, r.err), at=r.root["span"])
                continue
            fs = []
            o = m.opt_payload(r.root["out"]) if m.is_option(r.root["out"]) else r.root["out"]
            if run.kind == "query" or walk.local_struct(m, o):
                # what the value reports is looked at through its accessors; here only when it exists
                fs = [r.st.pc]
                if m.is_option(r.root["out"]):
                    fs.append(m.it.some(r.val)[0])
            else:
                bits_in(r.val, fs)
            for e in r.events:
                if e["kind"] in ("read", "assert"):
                    fs.append(e["pc"])
            ctx.count("functions_checked")
            for f in set(fs):
                if f < 2 or not vendor_bits(B, f):
                    ctx.good()
                    continue
                ctx.count("vendor_dependent")
                d = vs.wrong(f)
                if d:
                    ctx.bad(run.label + ":vendor", "%s depends on the vendor signature otherwise than through AMD / Intel / other" % run.label, at=r.root["span"], witness=m.describe(d))
                    break
                ctx.good()
        if g == "get_vendor_info":
            enum_class(ctx, m)

    def enum_class(ctx, m):
        """the private classification, where the instance keeps one"""
        c = m.ctor()
        t = m.types[c.root["out"]]
        for f, v in zip(t["v"][0]["f"], c.val[1]):
            ft = m.types[f[1]]
            if ft["k"] != "adt" or ft.get("kind") != "enum":
                continue
            names = {x["n"].lower(): x["n"] for x in ft["v"]}
            for n, want in (("amd", m.ev.amd), ("intel", m.ev.intel)):
                if n in names:
                    g, _ = m.it.enum_guard(v, names[n])
                    d = m.B.AND(c.st.pc, m.B.XOR(g, want))
                    ctx.count("classes_compared")
                    if d:
                        ctx.bad("vendor:" + n, "the instance takes the processor for %s on other signatures than documented" % n, at=c.root["span"], witness=m.describe(d))
                    else:
                        ctx.good()
                        ctx.sample("vendor class %s exactly for its signatures" % names[n])

    def docs(ctx, _):
        # documented effects of the classification
        m = Model(ctx.prog())
        B = m.B
        for sec in load(SPEC):
            if sec.kind != "getter":
                continue
            s = m.payload(sec.name)
            want = m.ev.cond(sec.gate)
            if vendor_bits(B, want):
                ctx.count("vendor_gates")
                r = m.getter(sec.name)
                d = B.AND(r.st.pc, B.XOR(s.guard, want))
                if d:
                    ctx.bad("CpuId::%s:vendor" % sec.name, "CpuId::%s is reported for other vendors than documented" % sec.name, at=r.root["span"], witness=m.describe(d))
                else:
                    ctx.good()
        for sec, subj, ent, ext in fields.entries(m):
            if ent.expr.startswith(("amd&", "= family_id", "= model_id")) and m.methods(subj.ty).get(ent.name):
                r = m.call(subj, ent.name)
                exp, care = expect.expectation(m, m.ev, ent.expr)
                d = expect.diff(m, B.AND(care, r.st.pc), r.val, exp) if not r.err else None
                ctx.count("vendor_values")
                if d is None or d:
                    ctx.bad("%s.%s:vendor" % (subj.label, ent.name), "%s.%s does not follow the vendor class" % (subj.label, ent.name), at=r.root["span"])
                else:
                    ctx.good()

    def dispatch(ctx, x):
        docs(ctx, x) if x == "docs" else work(ctx, x)

    ex = ctx.explanation
    ctx.pmap(["hypervisor", "docs"] + gs, dispatch)
    ctx.explanation = ex
    ctx.floor("vendor_dependent", 20)
    ctx.floor("vendor_gates", 5)
    ctx.floor("vendor_values", 5)
    ctx.floor("queries_compared", 1)


# ------------------------------------------------------------------ C16
def table(p):
    c = [c for c in p.d["consts"] if c["path"].split("::")[-1] == "CACHE_INFO_TABLE"]
    if not c:
        raise Missing("CACHE_INFO_TABLE")
    out = []
    t = p.types[c[0]["t"]]
    el = t["of"] if t["k"] in ("array", "slice") else None
    if el is None and t["k"] == "ref":
        el = p.types[t["to"]]["of"]
    fs = [f[0] for f in p.types[el]["v"][0]["f"]]
    ks = [v["n"] for v in p.types[p.types[el]["v"][0]["f"][fs.index("typ")][1]]["v"]]
    for e in c[0]["v"]["agg"]:
        d = dict(zip(fs, e["agg"]))
        out.append((int(d["num"]["int"]), ks[d["typ"]["var"]]))
    return c[0], out, fs, ks


def c16(ctx):
    ctx.explanation = (
        "The descriptor enumeration is decided by induction over its position: for each of the 15 positions, one step of the iterator is analysed "
        "over MIR from that position with all four registers free; which byte it stops at, the item it yields (number and type against the "
        "evaluated public table) and the position it leaves behind must equal the documented scan as canonical Boolean functions. Table facts "
        "(unique numbers, a description of its own per entry) are decided on the compiler-evaluated constant and the description's "
        "decision tree; the types and the sizes, levels, ways and counts stated are compared with a transcription of the manual's table "
        "(spec/descriptors.spec)."
    )
    p = ctx.prog()
    c, tab, fs, ks = table(p)
    documented = descriptors.load()
    seen = {}
    for i, (n, ty) in enumerate(tab):
        ctx.count("table_entries")
        if n in seen:
            ctx.bad("table:%#04x" % n, "the descriptor table lists %#04x twice" % n, at=c["span"])
        else:
            ctx.good()
        seen.setdefault(n, ty)
    ctx.floor("table_entries", 100)
    for n, (types, _, _) in sorted(documented.items()):
        ctx.count("documented_descriptors")
        if n not in seen:
            ctx.bad("table:missing %#04x" % n, "descriptor %#04x is documented but not in the descriptor table: the enumeration skips it" % n, at=c["span"])
        elif seen[n] not in types:
            ctx.bad("table:type %#04x" % n, "descriptor %#04x is listed as %s, documented as %s" % (n, seen[n], types[0]), at=c["span"])
        else:
            ctx.good()
    ctx.floor("documented_descriptors", 100)
    descriptions(ctx, p, seen, documented)
    m0 = Model(p)
    subj, ft = walk.positions(m0)
    known = {n: t for n, t in seen.items() if n != 0}
    if ft is not None:
        ctx.pmap(list(range(1, 17)), lambda ctx, k: position(ctx, k, known, fs, ks))
        ctx.floor("positions_decided", 16)
    if ft is None or ctx.cover.get("positions_too_large"):
        ctx.note("iterator state is not a single position, or its step relates too many bytes: contents with at most two descriptor bytes are unrolled instead")
        ctx.pmap([(a, b) for a in range(1, 16) for b in range(a + 1, 16)], lambda ctx, ab: pair(ctx, ab, known, fs, ks))
        ctx.floor("pairs_decided", 105)
    overrides.of_descriptors(ctx, ft)


def byte_at(m, k):
    """(register bits, byte bits) of scan position k"""
    w = m.ev.word(2, 0, ORDER[k % 4])
    return w, w[8 * (k // 4) : 8 * (k // 4) + 8]


def member(B, byte, known):
    r = 0
    for n in known:
        r = B.OR(r, B.eq(byte, B.const(n, 8)))
    return r


def scan(m, start, known, stop=16):
    """documented scan from a position: [(position, guard, byte)] and the guard of the end"""
    B = m.B
    rest, out = 1, []
    for j in range(start, stop):
        w, b = byte_at(m, j)
        hit = B.AND(rest, B.AND(B.NOT(w[31]), member(B, b, known)))
        out.append((j, hit, b))
        rest = B.AND(rest, B.NOT(hit))
    return out, rest


def compare_item(ctx, m, key, r, care, hits, rest, known, fs, ks):
    B = m.B
    g, pf = m.it.some(r.val)
    some = 0
    for j, h, b in hits:
        some = B.OR(some, h)
    d = B.AND(care, B.XOR(g, some))
    if d:
        more = B.AND(d, g)
        ctx.bad(key, "the enumeration %s" % ("yields an item where no known descriptor is left" if more else "ends although a known descriptor is left"), at=r.root["span"], witness=m.describe(more or d))
        return False
    if not pf or not B.AND(care, some):
        ctx.good()
        return True
    item = dict(zip(fs, pf[0][1]))
    for j, h, b in hits:
        hh = B.AND(care, h)
        if not hh:
            continue
        d = m.diff_bits(hh, item["num"], b)
        if d is None or d:
            ctx.bad(key, "the item yielded for position %d is not the descriptor in that byte" % j, at=r.root["span"], witness=m.describe(d or hh))
            return False
        for v in ks:
            want = 0
            for n, t in known.items():
                if t == v:
                    want = B.OR(want, B.eq(b, B.const(n, 8)))
            gv, _ = m.it.enum_guard(item["typ"], v)
            d = B.AND(hh, B.XOR(gv, want))
            if d:
                ctx.bad(key, "the item yielded for position %d has not the type its table entry has (%s)" % (j, v), at=r.root["span"], witness=m.describe(d))
                return False
    ctx.good()
    return True


def position(ctx, k, known, fs, ks):
    m = Model(ctx.prog())
    B = m.B
    subj0, ft = walk.positions(Model(ctx.prog()))
    subj = m.payload("get_cache_info")
    cur = (k - 1 + ft.c0) % (1 << ft.width)
    r, n = walk.any_step(m, None, subj, ft, cur)
    key = "cache descriptors[%d]" % k
    ctx.count("positions_decided")
    if (r.err or "").startswith("Blowup"):
        return ctx.count("positions_too_large")
    if r.err or r.val is None:
        return ctx.bad(key, "a step from position %d cannot be decided: %s" % (k, r.err or "it never returns"), at=r.root["span"])
    care = r.st.pc
    if B.AND(subj.guard, B.NOT(care)):
        return ctx.bad(key, "a step from position %d does not always return" % k, at=r.root["span"], witness=m.describe(B.AND(subj.guard, B.NOT(care))))
    hits, rest = scan(m, k, known)
    if not compare_item(ctx, m, key, r, care, hits, rest, known, fs, ks):
        return
    # the position left behind continues right after the byte found; nothing else changes
    after = enums.get(r.cell, ft.path)
    for j, h, b in hits:
        hh = B.AND(care, h)
        if hh:
            d = m.diff_bits(hh, after, B.const((j + ft.c0) % (1 << ft.width), ft.width))
            if d is None or d:
                return ctx.bad(key, "after the descriptor at position %d the scan does not continue with the next byte" % j, at=r.root["span"])
            ctx.good()
    for pth, v in enums.leaves(subj.val):
        if pth == ft.path:
            continue
        got = dict(enums.leaves(r.cell)).get(pth)
        some = B.AND(care, B.NOT(rest))
        if some and got != v:
            d = m.diff_bits(some, got, v[1]) if got is not None and got[0] == "b" and v[0] == "b" else some
            if d is None or d:
                return ctx.bad(key, "a step changes the descriptor registers", at=r.root["span"])
    end = B.AND(care, rest)
    if end and k < 16:
        # past the end it stays ended: the position never goes back before the bytes already seen
        d = B.AND(end, B.ult(after[1], B.const((15 + ft.c0) % (1 << ft.width), ft.width)))
        if d:
            return ctx.bad(key, "after its end the enumeration starts again", at=r.root["span"], witness=m.describe(d))
    ctx.good()
    ctx.sample("step from byte %d: first known descriptor among bytes %d..15, table entry with its number" % (k, k))


def pair(ctx, ab, known, fs, ks):
    """all contents with at most two descriptor bytes, whatever the iterator's state looks like"""
    m = Model(ctx.prog())
    B = m.B
    subj = m.payload("get_cache_info")
    pc = subj.guard
    for j in range(16):
        if j not in ab:
            w, b = byte_at(m, j)
            pc = B.AND(pc, B.eq(b, B.const(0, 8)))
    root = enums.next_root(m, subj.ty)
    st = St(dict(subj.st.c), pc)
    ref = m.it.newcell(st, subj.val)
    key = "cache descriptors[%d,%d]" % ab
    ctx.count("pairs_decided")
    done = 0
    got = [(1, 0)]      # guard, next position
    for step in range(3):
        r = m.run(root, [ref], st, horizon=2)
        if r.err or r.val is None:
            return ctx.bad(key, "step %d cannot be decided: %s" % (step + 1, r.err), at=r.root["span"])
        care = r.st.pc
        hits, rest = scan(m, 1, known)
        # expected item of this step: the (step+1)-th hit
        h1, h2 = [(j, B.AND(care, g), b) for j, g, b in _all(m, ab, known)]
        first = [(h1[0], h1[1], h1[2]), (h2[0], B.AND(h2[1], B.NOT(h1[1])), h2[2])]
        second = [(h2[0], B.AND(h1[1], h2[1]), h2[2])]
        exp = [first, second, []][step]
        if not compare_item(ctx, m, key + "#%d" % (step + 1), r, care, exp, None, known, fs, ks):
            return
        st = St(dict(r.st.c), B.AND(r.st.pc, m.it.some(r.val)[0]))
        if not st.pc:
            return


def _all(m, ab, known):
    for j in ab:
        w, b = byte_at(m, j)
        yield j, m.B.AND(m.B.NOT(w[31]), member(m.B, b, known)), b


def descriptions(ctx, p, seen, documented):
    m = Model(p)
    ty = [a["t"] for a in p.d["adts"] if a["path"].split("::")[-1] == "CacheInfo"]
    root = p.meth.get(("CacheInfo", "desc"))
    if not ty or root is None:
        raise Missing("CacheInfo::desc")
    val = m.it.sym(ty[0], ("any", "CacheInfo"))
    s = Subject("CacheInfo", ty[0], val, St({}, 1), 1)
    r = m.call(s, "desc")
    if r.err:
        return ctx.bad("desc", "descriptions cannot be derived: %s" % r.err, at=root["span"])
    fs = [f[0] for f in p.types[ty[0]]["v"][0]["f"]]
    num = val[1][fs.index("num")][1]
    alts = text.text(m.it, r.st, r.val)
    by = {}
    for n in sorted(seen):
        g = m.B.eq(num, m.B.const(n, 8))
        ts = {T for gg, T in alts if m.B.AND(g, gg)}
        ctx.count("descriptions")
        if len(ts) != 1 or list(ts)[0][0] != "const":
            ctx.bad("desc:%#04x" % n, "descriptor %#04x has no fixed description" % n, at=root["span"])
            continue
        t = list(ts)[0][1]
        if t in by:
            ctx.bad("desc:%#04x" % n, "descriptors %#04x and %#04x share one description" % (by[t], n), at=root["span"])
        elif not t.strip() or b"unknown" in t.lower():
            ctx.bad("desc:%#04x" % n, "descriptor %#04x has no description of its own" % n, at=root["span"])
        else:
            ctx.good()
        by.setdefault(t, n)
        if n in documented:
            wrong = descriptors.states(descriptors.facts(t.decode("utf8", "replace")), *documented[n][1:])
            ctx.count("descriptions_compared")
            if wrong:
                ctx.bad("desc:%#04x meaning" % n, "the description of descriptor %#04x %s" % (n, wrong), at=root["span"])
            else:
                ctx.good()
    ctx.floor("descriptions", 100)
    ctx.floor("descriptions_compared", 100)
