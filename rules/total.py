"""C07: no input makes the library panic.  C09: bounded work."""
from fractions import Fraction

import enums
import walk
from model import Model, Missing, Subject
from absint import St

# core functions the engine does not look into, and which can panic
PANICKY = ("unwrap", "expect", "index", "split_at", "copy_from_slice", "clone_from_slice", "panick", "unreachable",
           "slice_error", "::div", "::rem", "pow", "borrow_mut", "RefCell", "alloc")


def density(B, f):
    """fraction of all inputs in f, and the inputs it depends on: identifies a condition without its text"""
    memo = {0: Fraction(0), 1: Fraction(1)}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = (go(B.lo[x]) + go(B.hi[x])) / 2
        return r

    return go(f)


def signature(m, f):
    s = {}
    for base, bit in m.B.support(f):
        s.setdefault(m.base_name(base), []).append(bit)
    own = {k: v for k, v in s.items() if not k.startswith("CPUID(0x0,") and not k.startswith("CPUID(0x80000000,")}
    return " ".join("%s%s" % (k, sorted(v)) for k, v in sorted(own.items()))


def local_fn(p, e):
    for i in reversed(e["stack"]):
        if p.fns[i]["local"]:
            return p.fns[i]["path"]
    return e["fn"]


def judge(ctx, m, run):
    r = run.res
    ctx.count("entry_points_analysed")
    if r.err:
        ctx.bad(run.label + ":unanalysed", "%s cannot be shown free of panics: %s" % (run.label, r.err), at=r.root["span"])
        return
    okn = 0
    for e in r.events:
        if e["kind"] == "assert":
            ctx.count("panic_sites_reached")
            if e["pc"]:
                fn = local_fn(m.p, e)
                what = "%s %s" % (e["what"], e["det"])
                sec = run.subj.sec if run.subj is not None and run.subj.sec else run.label
                ctx.bad("%s panics depending on %s" % (sec, signature(m, e["pc"])), "%s (reached from %s) can fail: %s" % (fn, run.label, what), at=e["ln"], fn=e["fn"],
                        got="for a fraction %s of all inputs" % density(m.B, e["pc"]), witness=m.describe(e["pc"]))
            else:
                okn += 1
        elif e["kind"] == "unknown":
            if any(x in e["path"] for x in PANICKY):
                ctx.bad("%s:unknown %s" % (local_fn(m.p, e), e["path"]), "%s calls %s, whose freedom from panics is not established" % (local_fn(m.p, e), e["path"]), at=e["ln"])
            else:
                ctx.note("assumed total: %s (called in %s)" % (e["path"], e["fn"]))
    ctx.good(okn + 1)


def spec_of(name):
    return [p for p in enums.SPECS if p.name == name][0]


def work_items(ctx):
    m = Model(ctx.prog())
    its = [("self",), ("free",)] + [("getter", g) for g in sorted(m.getter_roots())]
    for sp in enums.SPECS:
        if sp.last is not None:
            ps = list(range(sp.start - 1, sp.last + 1))
            for k in range(4):
                its.append(("steps", sp.name, ps[k::4]))
        else:
            its.append(("steps", sp.name, None))
    for k in range(8):
        its.append(("cache", list(range(1, 18))[k::8]))
    return its


def runs_of(ctx, item):
    """(Model, Runs) batches for one unit of work"""
    p = ctx.prog()
    if item[0] == "self":
        m = Model(p)
        yield m, [walk.Run("CpuId::with_cpuid_reader", "ctor", m.ctor(), None, "with_cpuid_reader")] + walk.self_runs(m)
    elif item[0] == "free":
        for root in walk.standalone_roots(p):
            m = Model(p, order="bitwise")
            yield m, [walk.standalone(m, root)]
    elif item[0] == "getter":
        m = Model(p)
        yield m, walk.runs(m, [item[1]])
    elif item[0] == "steps":
        sp = spec_of(item[1])
        for c in item[2] or [None]:
            m = Model(p, order="bitwise") if sp.limit is not None else Model(p)
            subj, ft = walk.positions(m, sp)
            if ft is None:
                ctx.note("%s: state is not a single position; histories beyond the unrolled prefix are not decided" % sp.name)
                return
            r, n = walk.any_step(m, sp, subj, ft, None if c is None else (c - ft.off) % (1 << ft.width))
            lab = "%s[%s]" % (sp.name, "n" if c is None else c)
            out = [walk.Run(lab, "anystep", r, subj, (sp, ft, n))]
            if not r.err and r.val is not None:
                it = walk.item_subject(m, r, lab + ".item", sp.getter)
                if it is not None:
                    for a in sorted(m.accessors(it.ty)):
                        out.append(walk.Run("%s.%s" % (lab, a), "accessor", m.call(it, a), it, a))
                    out += walk.trait_runs(m, it)
            yield m, out
    elif item[0] == "cache":
        m0 = Model(p)
        try:
            subj, ft = walk.positions(m0)
        except Missing:
            return
        if ft is None:
            ctx.note("cache descriptors: state is not a single position")
            return
        for k in item[1]:
            m = Model(p)
            subj = m.payload("get_cache_info")
            r, n = walk.any_step(m, None, subj, ft, k)
            yield m, [walk.Run("cache descriptors[%d]" % k, "anystep", r, subj, (None, ft, n))]


def c07(ctx):
    ctx.explanation = (
        "Every way a client can run library code is analysed over type-checked MIR with all register bits free: construction, all leaf "
        "queries, all accessors of every reported value, iterator steps from the start and from an arbitrary position, items, "
        "Debug/Display/PartialEq/Clone implementations and free functions. For each MIR Assert terminator (overflow, shift, division, "
        "index), unreachable block and diverging call reached, the exact condition under which it fails is derived; it must be empty."
    )
    ctx.assumptions += [
        "histories of fewer than 2^32-1 steps on the open-ended enumerations (their u32 position is not exhausted)",
        "formatting machinery of core (Formatter) and str::trim do not panic",
    ]

    def work(ctx, x):
        ctx.config, item = x
        for m, rs in runs_of(ctx, item):
            for r in rs:
                judge(ctx, m, r)

    its = work_items(ctx)
    ctx.prog("i686")
    ctx.pmap([(c, i) for c in ("", "i686") for i in its], work)
    ctx.floor("entry_points_analysed", 500)
    ctx.floor("panic_sites_reached", 300)


# ------------------------------------------------------------------ C09
def c09(ctx):
    ctx.explanation = (
        "Termination and work bounds by abstract execution: every loop and recursion reachable from a query, accessor, comparison or "
        "formatting is unrolled over MIR until its continuation condition is unsatisfiable for all register contents (a back-edge that "
        "stays feasible past the bound is a violation), and the CPUID reads met are counted. For enumerations a ranking argument over the "
        "iterator's position is checked: from an arbitrary position one step performs at most one read (or goes on only below the announced "
        "limit), every step moves the position strictly forward, and past the announced limit a step yields nothing and reads nothing."
    )
    ctx.assumptions += ["positions of open-ended enumerations below 2^32-1", "calls into core that are not analysed terminate"]

    def work(ctx, item):
        if item[0] == "bounded":
            return bounded(ctx, spec_of(item[1]))
        for m, rs in runs_of(ctx, item):
            for r in rs:
                finite(ctx, m, r)

    ctx.pmap(work_items(ctx) + [("bounded", sp.name) for sp in enums.SPECS if sp.limit is not None], work)
    ctx.floor("entry_points_analysed", 500)
    ctx.floor("ranked_steps", 10)
    ctx.floor("steps_after_end", 15)


def finite(ctx, m, run):
    r = run.res
    B = m.B
    ctx.count("entry_points_analysed")
    if r.err:
        what = "does unbounded work" if r.err.startswith("NoBound") else "cannot be shown to finish"
        ctx.bad("%s:unbounded" % run.label, "%s %s: %s" % (run.label, what, r.err), at=r.root["span"])
        return
    n = len(r.kinds("read"))
    ctx.count("read_sites", n)
    ctx.cover["max_reads_per_call"] = max(ctx.cover.get("max_reads_per_call", 0), n)
    ctx.good()
    if run.kind == "anystep":
        ranked(ctx, m, run)
    elif run.kind not in ("step", "fmt", "free") and r.kinds("cut"):
        c = r.kinds("cut")[0]
        ctx.bad("%s:unbounded" % run.label, "%s keeps reading sub-leaves" % run.label, at=c["ln"])


def ranked(ctx, m, run):
    r, B = run.res, m.B
    sp, ft, n = run.name
    name = sp.name if sp else "cache descriptors"
    key = name + ":progress"
    ctx.count("ranked_steps")
    cuts = 0
    for c in r.kinds("cut"):
        cuts = B.OR(cuts, c["pc"])
    if cuts:
        c = r.kinds("cut")[0]
        ok = 0
        if sp is not None and sp.limit is not None and sp.skip:
            # goes on only to the next sub-leaf, and only while that is within the announced limit
            ok = 1
            for c in r.kinds("cut"):
                ok = B.AND(ok, B.NOT(B.AND(c["pc"], B.NOT(B.AND(B.NOT(B.ult(sp.limit(m.ev), c["sub"])), B.ult(m.resize(n, 32), c["sub"]))))))
        if ok != 1:
            ctx.bad(key, "%s: one step can read any number of sub-leaves" % name, at=c["ln"], fn=c["fn"], witness=m.describe(cuts))
            return
    ctx.good()
    if r.val is None:
        return
    g = B.AND(r.st.pc, m.it.some(r.val)[0])
    if sp is None or sp.limit is not None or sp.last is not None:
        ended(ctx, m, r, name, B.AND(r.st.pc, B.NOT(g)))
    if g:
        after = enums.get(r.cell, ft.path)
        d = B.AND(g, B.NOT(B.ult(n, after[1]))) if after and after[0] == "b" else g
        if d:
            ctx.bad(key, "%s: a step that yields an item does not move the position forward" % name, at=r.root["span"], witness=m.describe(d))
            return
        ctx.good()
    if sp is None:
        d = g if B.is_const(n) is not None and B.is_const(n) > 15 else 0
    elif sp.limit is not None:
        sub = B.add(m.resize(n, 33), B.const(ft.off % (1 << 33), 33))[0]
        d = B.AND(g, B.ult(m.resize(sp.limit(m.ev), 33), sub))
    elif sp.last is not None:
        d = g if (B.is_const(n) + ft.off) % (1 << ft.width) > sp.last else 0
    else:
        return
    if d:
        ctx.bad(name + ":limit", "%s: an item is yielded past the announced end" % name, at=r.root["span"], witness=m.describe(d))
    else:
        ctx.good()


def ended(ctx, m, r, name, pc):
    """an enumeration of announced size that has reported its end stays at its end"""
    B = m.B
    st, ref = r.st, r.ref
    for k in range(2):
        if not pc:
            return
        r2 = m.run(r.root, [ref], St(dict(st.c), pc), horizon=4)
        if r2.err:
            ctx.bad(name + ":restart", "%s: what a step after the end does cannot be derived: %s" % (name, r2.err), at=r.root["span"])
            return
        d = B.AND(r2.st.pc, m.it.some(r2.val)[0]) if r2.val is not None else 0
        for c in r2.kinds("cut"):
            d = B.OR(d, c["pc"])
        ctx.count("steps_after_end")
        if d:
            ctx.bad(name + ":restart", "%s: after it has reported its end, a further step goes on reading sub-leaves" % name, at=r.root["span"], witness=m.describe(d))
            return
        ctx.good()
        st, pc = r2.st, r2.st.pc


def bounded(ctx, sp):
    """independent of how the position is stored: after as many steps as the limit allows, no more items"""
    m = Model(ctx.prog())
    B = m.B
    subj, steps = enums.unrolled(m, sp, sp.steps)
    for k, (r, item, g, ity) in enumerate(steps):
        if r.err:
            ctx.bad("%s:unbounded" % sp.name, "step %d of %s cannot be analysed: %s" % (k + 1, sp.name, r.err), at=r.root["span"])
            return
        d = B.AND(g, B.ult(sp.limit(m.ev), B.const(sp.start + k, 32)))
        ctx.count("bounded_steps")
        if d:
            ctx.bad(sp.name + ":limit", "%s: step %d yields an item although the processor announces fewer" % (sp.name, k + 1), at=r.root["span"], witness=m.describe(d))
            return
        ctx.good()
