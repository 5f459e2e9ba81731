"""C08: sub-leaf enumerations list exactly the documented sub-leaves.  C09: bounded work."""
import enums
import expect
import overrides
from enums import REGS
from fields import SPEC
from spec import load
from model import Missing, Subject
from absint import St, Blowup


def item_spec():
    return {s.name: s for s in load(SPEC) if s.kind == "item"}


def cmp_item(ctx, m, sp, ent_list, k, ity, item, st, care, words, sub):
    """accessors of the item of step k against the documented registers of its sub-leaf"""
    lab = "%s item" % sp.name
    if sp.item is None:
        # plain CpuIdResult
        t = m.types[ity]
        names = [f[0] for f in t["v"][0]["f"]]
        for n, v in zip(names, item[1]):
            d = expect.diff(m, care, v, ("bits", words[n]))
            key = "%s.%s" % (lab, n)
            if d is None or d:
                ctx.bad(key, "%s: field %s of item %s is %s, documented register %s of that sub-leaf" % (sp.name, n, k, expect.show(m, v), n),
                        witness=m.describe(d) if d else None)
            else:
                ctx.good()
            ctx.count("item_values_compared")
        return
    isub = Subject("%s#%s" % (lab, k), ity, item, st, care)
    m.ev.item = (words, sub)
    for ent in ent_list:
        key = "%s.%s" % (lab, ent.name)
        root = m.methods(ity).get(ent.name)
        if root is None:
            ctx.bad(key, "query %s::%s no longer exists" % (m.tpath(ity), ent.name))
            continue
        r = m.call(isub, ent.name)
        if r.err:
            ctx.bad(key, "value of %s cannot be derived (%s)" % (key, r.err), at=root["span"])
            continue
        exp, c = expect.expectation(m, m.ev, ent.expr)
        d = expect.diff(m, m.B.AND(m.B.AND(care, c), r.st.pc), r.val, exp)
        ctx.count("item_values_compared")
        if d is None or d:
            ctx.bad(key, "%s of item %s is %s; documented %s of the item's own sub-leaf" % (key, k, expect.show(m, r.val), ent.expr),
                    at=root["span"], witness=m.describe(d) if d else None)
        else:
            ctx.good()


def c08(ctx):
    ctx.explanation = (
        "Each enumeration's state machine is unrolled symbolically over type-checked MIR: the iterator value the leaf query "
        "builds is fed to next() repeatedly, every register bit of every sub-leaf staying free. At each step the exact Boolean "
        "condition for an item, the condition for the end, and every accessor of the item are compared with the documented "
        "sequence (start sub-leaf, ascending order, end marker or limit). A second, inductive obligation replaces the cursor "
        "found in the iterator's state by an arbitrary sub-leaf number n and shows that one step reads sub-leaf n, decodes it "
        "and leaves the cursor at n+1, which extends the argument from the unrolled prefix to every position."
    )
    from model import Model
    items = item_spec()
    for sp in enums.SPECS:
        n = min(sp.steps + (2 if ctx.thorough and not (sp.skip and sp.limit) else 0), sp.smax - sp.start + 1)
        while True:
            m = Model(ctx.prog())      # a fresh carrier per enumeration keeps the canonical forms small
            snap = ctx.snapshot()
            try:
                one(ctx, m, sp, items, n)
                break
            except Blowup:
                if n == 1:
                    raise
                ctx.restore(snap)
                ctx.note("%s: %d unrolled steps exceed the size budget, retried with %d" % (sp.name, n, n - 1))
                n -= 1
        ctx.cover["functions_analysed"] = ctx.cover.get("functions_analysed", 0) + len(m.it.stats["fns"])
    for sp in enums.SPECS:
        overrides.of_spec(ctx, sp)
    ctx.floor("iterator_types", 8)
    ctx.floor("steps_compared", 24)
    ctx.floor("item_values_compared", 120)


def one(ctx, m, sp, items, n):
    B = m.B
    ctx.count("enumerations")
    subj, steps = enums.unrolled(m, sp, n)
    exp = enums.expected_steps(sp, m.ev, n)
    reached = subj.guard
    key = "%s" % sp.name
    done = 0
    for k, (r, item, g, ity) in enumerate(steps):
        root = r.root
        if r.err:
            ctx.bad(key + ":step", "step %d of %s cannot be analysed: %s" % (k + 1, sp.name, r.err), at=root["span"])
            return
        e_item, e_end, words, sub, beyond = exp[k]
        # inputs for which this step is asked at all and lies within the unrolled sub-leaves
        care = B.AND(reached, B.NOT(beyond))
        for c in r.kinds("cut"):
            care = B.AND(care, B.NOT(c["pc"]))
            d = B.AND(B.AND(reached, B.NOT(beyond)), c["pc"])
            if d:
                ctx.bad(key + ":extent", "%s: step %d keeps reading sub-leaves past the documented ones" % (sp.name, k + 1), at=c["ln"], fn=c["fn"], witness=m.describe(d))
        care = B.AND(care, r.st.pc)
        d = B.AND(care, B.XOR(g, e_item))
        ctx.count("steps_compared")
        if d:
            more = B.AND(d, g)
            ctx.bad(
                key + ":sequence",
                "%s: step %d %s" % (sp.name, k + 1, "yields an item where the documented list has none" if more else "ends or skips where the documented list has an item"),
                at=root["span"], witness=m.describe(more or d))
            return
        ctx.good()
        both = B.AND(care, B.AND(g, e_item))
        if both == 0:
            break
        cmp_item(ctx, m, sp, items[sp.item].entries if sp.item else None, k + 1, ity, item, r.st, both, words, sub)
        if len(ctx.viol) > 20:
            return
        done += 1
        reached = both
    ctx.count("steps_unrolled", done)
    ctx.sample("%s: %d steps equal the documented list for all register contents (sub-leaves %d..%d)" % (sp.name, done, sp.start, sp.smax))
    if steps and not ctx.viol:
        r, item, g, ity = steps[0]
        ft = enums.fit(m, sp, subj, r, m.B.AND(g, exp[0][0]))
        if ft is None:
            ctx.note("%s: the iterator's state is not a single cursor; only the unrolled prefix is decided" % sp.name)
        elif sp.last is None:
            induct(ctx, m, sp, subj, ft, items)
        else:
            partition(ctx, m, sp, ft, items)


def item_of(m, sp, r, ity):
    g, fs = m.it.some(r.val)
    g = m.B.AND(g, r.st.pc)
    item = fs[0] if fs else None
    t = ity
    if sp.unwrap and item is not None:
        ge, pf = m.it.enum_guard(item, sp.unwrap)
        item = pf[0] if pf else None
        v = [v for v in m.types[ity]["v"] if v["n"] == sp.unwrap]
        t = v[0]["f"][0][1] if v else ity
        g = m.B.AND(g, ge)
    return g, item, t


def induct(ctx, m, sp, subj, ft, items):
    """one step from an arbitrary cursor position n reads exactly the documented sub-leaf and moves on by one"""
    if sp.limit is not None:
        # bitwise interleaved order keeps the comparison of position and limit small
        from model import Model
        m = Model(ctx.prog(), order="bitwise")
        subj = enums.iterator(m, sp)
    B = m.B
    key = sp.name + ":induction"
    # a position wider than a sub-leaf number: its 2^32 admissible values, and the one past them
    n = B.word(("cursor", sp.name), min(ft.width, 32)) + (0,) * max(0, ft.width - 32)
    top = B.eq(n, B.const((1 << ft.width) - 1, ft.width))
    # positions whose successor is representable
    care0 = B.AND(subj.guard, B.NOT(top))
    off = ft.off
    wide = tuple(n) + (0,) * (32 - len(n)) if len(n) < 32 else tuple(n[:32])
    if off:
        sub, carry = B.add(wide, B.const(off & 0xFFFFFFFF, 32))
        if off > 0:
            care0 = B.AND(care0, B.NOT(carry))
        else:
            care0 = B.AND(care0, carry)
    else:
        sub = wide
    r = enums.step_from(m, sp, subj, ft, n, 1, care0)
    if r.err:
        ctx.note("%s: inductive step not analysable (%s)" % (sp.name, r.err))
        return
    if ft.width > 32:
        past = enums.step_from(m, sp, subj, ft, B.const((1 << 32) - off, ft.width), 1)
        if past.err or past.val is None or past.kinds("read") or past.kinds("cut") or B.AND(past.st.pc, m.it.some(past.val)[0]):
            ctx.bad(key, "%s: the enumeration goes on after the largest sub-leaf number" % sp.name, at=r.root["span"])
            return
        ctx.good()
    words = sp.words(m.ev, sub)
    inlim = 1
    if sp.limit is not None:
        inlim = B.NOT(B.ult(sp.limit(m.ev), sub))
    valid = sp.valid(m.ev, words) if sp.valid else 1
    want = B.AND(care0, B.AND(inlim, valid))
    root = r.root
    for e in r.kinds("read"):
        d = B.AND(e["pc"], B.NOT(B.eq(e["sub"], sub)))
        if d:
            ctx.bad(key, "%s: a step at position n reads another sub-leaf than n" % sp.name, at=e["ln"], fn=e["fn"], witness=m.describe(d))
            return
    again = 0
    for e in r.kinds("cut"):
        again = B.OR(again, e["pc"])
        nxt, carry = B.add(sub, B.const(1, 32))
        d = B.AND(B.AND(e["pc"], B.NOT(carry)), B.NOT(B.eq(e["sub"], nxt)))
        if d:
            ctx.bad(key, "%s: after an empty sub-leaf n the step does not continue at n+1" % sp.name, at=e["ln"], fn=e["fn"], witness=m.describe(d))
            return
    g, item, ity = item_of(m, sp, r, m.opt_payload(root["out"])) if r.val is not None else (0, None, None)
    d = B.XOR(g, want)
    if d:
        more = B.AND(d, g)
        ctx.bad(key, "%s: at an arbitrary sub-leaf n a step %s" % (sp.name, "yields an item for an invalid sub-leaf" if more else "yields nothing for a valid sub-leaf"),
                at=root["span"], witness=m.describe(more or d))
        return
    if sp.skip and sp.limit is not None:
        # continues exactly while n+1 is within the limit
        lim = sp.limit(m.ev)
        more = B.AND(B.AND(care0, B.NOT(valid)), B.ult(sub, lim))
        d = B.XOR(again, more)
        if d:
            ctx.bad(key, "%s: after an empty sub-leaf n the step %s" % (sp.name, "goes past the limit" if B.AND(d, again) else "stops before the limit"), at=root["span"], witness=m.describe(d))
            return
    elif again:
        ctx.bad(key, "%s: one step can read several sub-leaves although an invalid one ends the list" % sp.name, at=root["span"], witness=m.describe(again))
        return
    ctx.good(3)
    after = enums.get(r.cell, ft.path)
    n1, _ = B.add(tuple(n), B.const(1, ft.width))
    d = expect.diff(m, g, after, ("bits", n1))
    if d is None or d:
        ctx.bad(key, "%s: after the item of sub-leaf n the position is not n+1" % sp.name, at=root["span"], witness=m.describe(d) if d else None)
        return
    ctx.good()
    # nothing else of the state changes
    b = dict(enums.leaves(r.cell))
    for p, v in enums.leaves(enums.put(subj.val, ft.path, ("b", n))):
        if p == ft.path:
            continue
        w = b.get(p)
        same = w == v
        if not same and v[0] == "b" and w and w[0] == "b":
            same = expect.diff(m, g, w, ("bits", v[1])) == 0
        if not same:
            ctx.bad(key, "%s: a step changes the iterator's state besides its position" % sp.name, at=root["span"])
            return
    ctx.good()
    cmp_item(ctx, m, sp, items[sp.item].entries if sp.item else None, "n", ity, item, r.st, g, words, sub)
    ctx.count("inductive_steps")
    ctx.sample("%s: from an arbitrary position n one step reads sub-leaf n, yields its item exactly when valid, moves to n+1" % sp.name)


def partition(ctx, m0, sp, ft, items):
    """a finite enumeration: one step from every possible position"""
    from model import Model
    import dataclasses
    cs = range(sp.start, sp.last + 1) if ctx.thorough else (sp.start + 1, 7, 9, 14, 18, sp.last)
    for s in cs:
        m = Model(ctx.prog())
        B = m.B
        subj = enums.iterator(m, sp)
        r = enums.step_from(m, sp, subj, ft, B.const((s - ft.off) & ((1 << ft.width) - 1), ft.width), sp.smax + 2)
        key = sp.name + ":position"
        if r.err:
            ctx.note("%s: step from position %d not analysable (%s)" % (sp.name, s, r.err))
            continue
        sp2 = enums.EnumSpec(sp.name, sp.getter, sp.path, s, sp.leaf, sp.valid, sp.limit, sp.member, sp.skip, sp.smax, 1, sp.item, sp.unwrap, sp.last)
        e_item, e_end, words, sub, beyond = enums.expected_steps(sp2, m.ev, 1)[0]
        if r.kinds("cut"):
            ctx.bad(key, "%s: a step from sub-leaf %d keeps reading" % (sp.name, s), at=r.root["span"])
            return
        g, item, ity = item_of(m, sp, r, m.opt_payload(r.root["out"]))
        d = B.AND(subj.guard, B.XOR(g, e_item))
        if d:
            ctx.bad(key, "%s: a step from sub-leaf %d %s" % (sp.name, s, "yields an item where none is documented" if B.AND(d, g) else "misses an item"), at=r.root["span"], witness=m.describe(d))
            return
        ctx.good()
        ctx.count("inductive_steps")
        both = B.AND(subj.guard, g)
        if both:
            cmp_item(ctx, m, sp, items[sp.item].entries, "from %d" % s, ity, item, r.st, both, words, sub)
            # the position moves past the item
            after = enums.get(r.cell, ft.path)[1]
            want = B.add(B.const((1 - ft.off) & 0xFFFFFFFF, 32), sub)[0][: ft.width]
            d = expect.diff(m, both, ("b", after), ("bits", want))
            if d:
                ctx.bad(key, "%s: after an item the position is not just behind it" % sp.name, at=r.root["span"], witness=m.describe(d))
                return
            ctx.good()
    ctx.sample("%s: one step from each position in %s equals the documented list" % (sp.name, list(cs)))
