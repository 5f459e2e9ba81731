"""C18 (equality and clones), C24 (synonyms): relations between several runs over the same inputs."""
import re
import same
import text
import total
import walk
from model import Model, Missing, Subject, reader
from absint import St, UNIT


# ------------------------------------------------------------------ C24
def replacement(root):
    n = re.findall(r"`([A-Za-z0-9_:]+)`", root.get("depnote") or "")
    return n[0].split("::")[-1] if n else None


def run_on(m, root, names):
    """a function on arbitrary arguments (named by position, so that two functions get the same)"""
    st = St({}, 1)
    args = []
    for k, t in enumerate(root["ins"]):
        tt = m.types[t]
        by_ref = tt["k"] == "ref"
        ty = tt["to"] if by_ref else t
        inner = m.types[ty]
        if inner["k"] == "param":
            v = reader(m.rid)
        elif by_ref and inner["k"] in ("str", "slice"):
            args.append(m.it.sym(t, (names, k)))
            continue
        else:
            v = m.it.sym(ty, (names, k))
        args.append(m.it.newcell(st, v) if by_ref else v)
    return m.run(root, args, st), args


def same_reads(m, a, b):
    """the two runs ask the source for the same things under the same conditions"""
    def sig(r):
        d = {}
        for e in r.kinds("read"):
            k = (m.it.canon(("b", e["leaf"]), r.st), m.it.canon(("b", e["sub"]), r.st)) if isinstance(e["leaf"], tuple) else (e["leaf"], e["sub"])
            d[k] = m.B.OR(d.get(k, 0), e["pc"])
        return d
    return sig(a) == sig(b)


def c24(ctx):
    ctx.explanation = (
        "Relational value-flow analysis: every function marked #[deprecated] and the replacement its note names are analysed over MIR on the same "
        "arbitrary receiver (all register bits free); their results must be equal as canonical Boolean functions (texts byte by byte), and both "
        "must return under the same condition. The two constructors for a user-supplied source, and the two of the native one, are compared in "
        "the same way, field by field of the instance they build."
    )
    p = ctx.prog()
    deps = sorted([r for r in p.roots if r["deprecated"] and r["pub"]], key=lambda r: r["path"])

    def work(ctx, path):
        if path == "ctors":
            return ctors(ctx)
        root = [r for r in deps if r["path"] == path][0]
        name = replacement(root)
        key = root["path"]
        rep = p.meth.get((root.get("self"), name)) if root.get("self") else p.free.get(name)
        if rep is None:
            return ctx.bad(key + ":replacement", "deprecated %s names no replacement that exists (note: %r)" % (key, root.get("depnote")), at=root["span"])
        ctx.count("synonyms_compared")
        compare(ctx, root, rep, key)

    ctx.pmap(["ctors"] + [r["path"] for r in deps], work)
    ctx.floor("synonyms_compared", 3)
    ctx.floor("constructors_compared", 2)


def compare(ctx, root, rep, key):
    for order in ("major", "bitwise"):
        m = Model(ctx.prog(), order=order)
        B = m.B
        a, _ = run_on(m, root, "arg")
        b, _ = run_on(m, rep, "arg")
        if not a.err and not b.err:
            break
    for r in (a, b):
        if r.err:
            return ctx.bad(key, "%s cannot be compared: %s" % (key, r.err), at=r.root["span"])
    d = B.XOR(a.st.pc, b.st.pc)
    if not d and (a.val is None) != (b.val is None):
        d = a.st.pc
    if not d and a.val is not None:
        d = same.diff(m, B.AND(a.st.pc, b.st.pc), a.val, a.st.c, b.val, b.st.c)
    if d:
        return ctx.bad(key, "%s and %s differ" % (key, rep["path"]), at=root["span"], witness=m.describe(d))
    ctx.good()
    ctx.sample("%s = %s for every receiver" % (key, rep["path"]))


def ctors(ctx):
    p = ctx.prog()
    m = p.meth
    a, b = m.get(("CpuId", "with_cpuid_fn")), m.get(("CpuId", "with_cpuid_reader"))
    if a is None or b is None:
        raise Missing("constructors CpuId::with_cpuid_fn and CpuId::with_cpuid_reader")
    ctx.count("constructors_compared")
    compare(ctx, a, b, "CpuId::with_cpuid_fn")
    new = m.get(("CpuId", "new"))
    dfl = [r for (s, t, n), r in p.tmeth.items() if s == "CpuId" and t.startswith("core::default::Default") and n == "default"]
    if new is None or not dfl:
        raise Missing("CpuId::new and its Default")
    ctx.count("constructors_compared")
    compare(ctx, dfl[0], new, "CpuId::default")


# ------------------------------------------------------------------ C18

def label(r):
    return "%s (%s)" % (r["path"], r["span"])


def self_ty(m, r):
    t = m.types[r["ins"][0]]
    return t["to"] if t["k"] == "ref" else r["ins"][0]


def twins(p, ty, refs=("a", "b")):
    """a Model with two arbitrary values of the type whose bits are interleaved in the variable order"""
    s = Model(p, order="bitwise")
    names = []
    for n in refs:
        before = len(s.B.seqs)
        s.it.sym(ty, ("any", n))
        names.append(list(s.B.seqs)[before:])
    m = Model(p, order="bitwise")
    for ks in zip(*names):
        for k in ks:
            m.B.var(k, 0)
    return m, [m.it.sym(ty, ("any", n)) for n in refs]


def all_equal(m, a, b):
    """(condition under which every piece of data is equal, names of compared leaves)"""
    B = m.B
    if a[0] == "b":
        return B.NOT(B.NOT(B.eq(a[1], b[1]))), 1
    if a[0] == "s":
        e, n = 1, 0
        for x, y in zip(a[1], b[1]):
            c, k = all_equal(m, x, y)
            e, n = B.AND(e, c), n + k
        return e, n
    if a[0] == "e":
        e, n = 0, 1
        for (v, g, fa), (w, h, fb) in zip(a[2], b[2]):
            c = B.AND(g, h)
            for x, y in zip(fa, fb):
                cc, k = all_equal(m, x, y)
                c, n = B.AND(c, cc), n + k
            e = B.OR(e, c)
        return e, n
    if a[0] == "r":
        st = St({}, 1)
        return all_equal(m, m.it.load_ref(st, a), m.it.load_ref(st, b))
    return B.var(("sourceeq",) + tuple(sorted((a, b), key=str)), 0), 1


def c18(ctx):
    ctx.explanation = (
        "Relational analysis over MIR of every PartialEq, Ord and Clone implementation of a library type, derived or written by hand: on two arbitrary "
        "values the result of eq must be, as a canonical Boolean function, the conjunction of bitwise equality of every field (tags and payloads "
        "of enumerations included); ne its complement; cmp must be Equal exactly when eq holds and partial_cmp must be Some(cmp). A clone "
        "must be field-for-field the original, share no reference with it, and leave it unchanged; it always returns. Iterators are covered by "
        "the same argument: their position is one of the fields."
    )
    ctx.assumptions += ["the CPUID source supplied by the client has a lawful Clone and PartialEq"]
    p = ctx.prog()
    its = []
    for tr in ("PartialEq", "Clone", "Ord", "PartialOrd"):
        its += [(tr, r["i"]) for r in p.roots if re.match(r"(core|std)::(cmp|clone)::%s\b" % tr, r.get("trait") or "")]
    by = {r["i"]: r for r in p.roots}

    def work(ctx, it):
        tr, i = it
        r = by[i]
        {"PartialEq": eq, "Clone": clone, "Ord": order, "PartialOrd": order}[tr](ctx, p, r, by)

    ctx.pmap(its, work)
    ctx.floor("equalities", 60)
    ctx.floor("clones", 40)


def run2(ctx, m, r, vals):
    st = St({}, 1)
    refs = [m.it.newcell(st, v) for v in vals]
    res = m.run(r, refs, st)
    if res.err:
        ctx.bad(label(r).split(" (")[0], "%s cannot be analysed: %s" % (r["path"], res.err), at=r["span"])
        return None, None
    if res.st.pc != 1 or res.val is None:
        ctx.bad(label(r).split(" (")[0], "%s does not always return" % r["path"], at=r["span"])
        return None, None
    return res, refs


def eq(ctx, p, r, by):
    m, (a, b) = twins(p, self_ty(Model(p), r))
    B = m.B
    if m.types[r["ins"][1]].get("to") != m.types[r["ins"][0]].get("to") and m.tpath(m.types[r["ins"][1]].get("to", r["ins"][1])) != m.tpath(self_ty(m, r)):
        return ctx.note("%s compares different types" % r["path"])
    res, refs = run2(ctx, m, r, (a, b))
    if res is None:
        return
    ctx.count("equalities")
    want, n = all_equal(m, a, b)
    ctx.count("fields_compared", n)
    got = res.val[1][0] if res.val[0] == "b" else None
    if r["name"] == "ne":
        want = B.NOT(want)
    if got is None or got != want:
        d = B.XOR(got, want) if got is not None else 1
        return ctx.bad(r["path"], "%s %s" % (r["path"], "says 'different' for equal values or 'equal' for different ones" if r["name"] == "ne" else
                                         ("calls values equal that differ" if B.AND(d, B.NOT(want)) else "calls values different that hold equal data")), at=r["span"], witness=m.describe(d))
    ctx.good(n)
    if n > 3:
        ctx.sample("%s: equal exactly when all %d data items are" % (r["path"], n))


def clone(ctx, p, r, by):
    ty = self_ty(Model(p), r)
    if r["name"] == "clone_from":
        m, (a, b) = twins(p, ty)
        res, refs = run2(ctx, m, r, (a, b))
        if res is None:
            return
        got, orig, src = m.it.load_ref(res.st, refs[0]), b, m.it.load_ref(res.st, refs[1])
    else:
        m = Model(p, order="bitwise")
        a = m.it.sym(ty, ("any", "a"))
        res, refs = run2(ctx, m, r, (a,))
        if res is None:
            return
        got, orig, src = res.val, a, m.it.load_ref(res.st, refs[0])
    ctx.count("clones")
    d = same.diff(m, 1, got, res.st.c, orig, {})
    if d:
        return ctx.bad(r["path"], "%s: the clone differs from the original" % r["path"], at=r["span"], witness=m.describe(d))
    if same.diff(m, 1, src, res.st.c, orig, {}):
        return ctx.bad(r["path"], "%s changes the original" % r["path"], at=r["span"])
    if shares(got, {t[0] for ref in refs for g, t in ref[1]}):
        return ctx.bad(r["path"], "%s: the clone refers to the original" % r["path"], at=r["span"])
    ctx.good(3)
    ctx.sample("%s: every field copied" % r["path"])


def shares(v, cells):
    if v is None:
        return False
    if v[0] == "r":
        return any(t[0] in cells for g, t in v[1])
    if v[0] == "s":
        return any(shares(x, cells) for x in v[1])
    if v[0] == "e":
        return any(shares(x, cells) for a, g, fs in v[2] for x in fs)
    return False


def order(ctx, p, r, by):
    """cmp is Equal exactly for equal values; partial_cmp is Some of the same"""
    if r["name"] not in ("cmp", "partial_cmp"):
        return
    m, (a, b) = twins(p, self_ty(Model(p), r))
    B = m.B
    res, refs = run2(ctx, m, r, (a, b))
    if res is None:
        return
    ctx.count("orderings")
    g, v = 1, res.val
    if r["name"] == "partial_cmp":
        g, fs = m.it.some(res.val)
        v = fs[0] if fs else None
    want, n = all_equal(m, a, b)
    got = 0
    if v is not None:
        got = v[2] if v[0] == "ord" else B.eq(v[1], (0,) * len(v[1])) if v[0] == "b" else m.it.enum_guard(v, "Equal")[0]
    d = B.OR(B.NOT(g), B.XOR(got, want))
    if d:
        return ctx.bad(r["path"], "%s is not Equal exactly for equal values" % r["path"], at=r["span"], witness=m.describe(d))
    ctx.good()
