"""Iterator methods a type defines besides next(): they must agree with what next() does.
Each is run from the enumeration's first state (and from the one after an item) and compared with the steps of next(), for all
register contents."""
import enums
import same
from absint import St, Blowup
from model import Model

STEPS = 4       # items followed from each state
ITER, BACK, EXACT, FUSED = "core::iter::Iterator", "core::iter::DoubleEndedIterator", "core::iter::ExactSizeIterator", "core::iter::FusedIterator"


def short(tr):
    return "core::iter::" + tr.split("<")[0].split("::")[-1] if tr and "iter" in tr else tr


def own(p, ty):
    """(trait, name) -> root of the iterator methods implemented by this type besides next, and the marker traits it has"""
    path = p.types[ty]["path"].split("::")[-1]
    out = {}
    for (s, t, n), r in p.tmeth.items():
        if s == path and short(t) in (ITER, BACK, EXACT) and n != "next" and "i" in r:
            out[(short(t), n)] = r
    marks = set()
    for i in p.d.get("impls", ()):
        if i.get("trait") and i.get("self", "").split("<")[0].split("::")[-1] == path:
            marks.add(short(i["trait"]))
    return out, marks


class Chain:
    """the first states and items of next() from one state"""

    def __init__(self, m, ty, val, st, guard, horizon, steps):
        self.m, self.ty, self.h, self.steps = m, ty, horizon, steps
        self.root = enums.next_root(m, ty)
        self.vals, self.sts, self.items, self.err = [val], [St(dict(st.c), guard)], [], None
        B = m.B
        for k in range(steps):
            s = self.sts[-1]
            if not s.pc:
                break
            r, ref = self.go(self.root, self.vals[-1], s)
            if r.err or r.val is None:
                self.err = r.err or "next never returns"
                return
            g, fs = m.it.some(r.val)
            g = B.AND(g, r.st.pc)
            self.items.append((fs[0] if fs else None, g, r.st.c, B.AND(r.st.pc, B.NOT(g)), m.it.load_ref(r.st, ref), r.st))
            self.vals.append(self.items[-1][4])
            self.sts.append(St(dict(r.st.c), g))

    def go(self, root, val, s, args=()):
        st = St(dict(s.c), s.pc)
        ref = self.m.it.newcell(st, val)
        a = ref if self.m.types[root["ins"][0]]["k"] == "ref" else val
        return self.m.run(root, [a] + list(args), st, horizon=self.h), ref

    def ends(self, k):
        """inputs on which there are exactly k items"""
        return self.items[k][3] if k < len(self.items) else 0


def of_spec(ctx, sp):
    def make():
        m = Model(ctx.prog())
        s = enums.iterator(m, sp)
        return m, s.ty, s.val, s.st, s.guard, sp.smax + 2

    check(ctx, make, sp.name, steps=min(STEPS, sp.steps))


def of_descriptors(ctx, ft):
    """the last bytes of the scan only: all of them relate too many table entries"""
    for back in (2, 3):
        def make():
            m = Model(ctx.prog())
            s = m.payload("get_cache_info")
            v = s.val if ft is None else enums.put(s.val, ft.path, ("b", m.B.const((15 - back + ft.c0) % (1 << ft.width), ft.width)))
            return m, s.ty, v, s.st, s.guard, 20

        check(ctx, make, "cache descriptors", prefix=1)
        if ft is None or ctx.viol:
            break


def check(ctx, make, name, prefix=2, steps=STEPS):
    """make() -> (Model, type, value, state, guard, horizon)"""
    p = ctx.prog()
    m, ty, *_ = make()
    ctx.count("iterator_types")
    while steps > 1:
        snap = ctx.snapshot()
        try:
            return methods(ctx, p, lambda: make() + (steps,), name, ty, prefix)
        except Blowup:
            ctx.restore(snap)
            steps -= 1
    ctx.bad("%s: methods" % name, "the Iterator methods %s defines are too large to compare with next()" % name)


def methods(ctx, p, make, name, ty, prefix):
    meths, marks = own(p, ty)
    for (tr, n), r in sorted(meths.items()):
        ctx.count("overriding_methods")
        one(ctx, make, name, r, n, prefix)
    if EXACT in marks and (ITER, "size_hint") not in meths:
        ctx.bad("%s: exact size" % name, "%s promises an exact size but has no size_hint" % name)
    if EXACT in marks and (ITER, "size_hint") in meths:
        one(ctx, make, name, meths[(ITER, "size_hint")], "size_hint", prefix, exact=True)
    if FUSED in marks:
        fused(ctx, make, name, prefix)


def chain(make, start):
    m, ty, val, st, guard, horizon, steps = make()
    c = Chain(m, ty, val, st, guard, horizon, steps)
    if start and not c.err:
        if len(c.sts) <= start or not c.sts[start].pc:
            return m, None
        c = Chain(m, ty, c.vals[start], c.sts[start], c.sts[start].pc, horizon, steps)
    return m, c


def fused(ctx, make, name, prefix):
    m, c = chain(make, 0)
    key = "%s: fused" % name
    if c.err:
        return ctx.bad(key, "%s cannot be analysed: %s" % (name, c.err))
    for k, (item, g, cells, end, cell, st) in enumerate(c.items):
        if not end:
            continue
        r, _ = c.go(c.root, cell, St(dict(st.c), end))
        d = r.err or m.B.AND(r.st.pc, m.it.some(r.val)[0])
        if d:
            return ctx.bad(key, "%s promises to stay ended, but after %d items it can go on after its end" % (name, k), at=c.root["span"],
                           witness=None if r.err else m.describe(d))
        ctx.good()


def one(ctx, make, name, root, n, prefix, exact=False):
    for start in range(prefix):
        m, c = chain(make, start)
        if c is None:
            continue
        key = "%s: %s" % (name, n)
        if c.err:
            return ctx.bad(key, "%s cannot be analysed: %s" % (name, c.err), at=root["span"])
        bad = JUDGE.get(n, unknown)(m, c, root, exact)
        if bad:
            return ctx.bad(key, "%s::%s disagrees with next(): %s" % (name, n, bad[0]), at=root["span"], witness=m.describe(bad[1]) if bad[1] else None)
        ctx.good()


def unknown(m, c, root, exact):
    return "it cannot be compared", None


def some(m, r):
    g, fs = m.it.some(r.val)
    return m.B.AND(g, r.st.pc), fs[0] if fs else None


def differs(m, c, r, want, item, cells):
    """compare an Option result with "Some(item) exactly when want" """
    if r.err or r.val is None:
        return r.err or "it does not return", None
    g, v = some(m, r)
    d = m.B.AND(r.st.pc, m.B.XOR(g, want))
    if d:
        return "it yields %s" % ("an item where next() has none" if m.B.AND(d, g) else "nothing where next() has an item"), d
    both = m.B.AND(g, want)
    if both:
        d = same.diff(m, both, v, r.st.c, item, cells)
        if d:
            return "it yields another item", d
    return None


def nth(m, c, root, exact):
    for n in range(c.steps - 1):
        if n >= len(c.items):
            break
        item, g, cells, _, after, st = c.items[n]
        r, ref = c.go(root, c.vals[0], c.sts[0], [("b", m.B.const(n, m.p.ptr))])
        bad = differs(m, c, r, g, item, cells)
        if bad:
            return "nth(%d): %s" % (n, bad[0]), bad[1]
        if not g or n + 1 >= len(c.items):
            continue
        nxt = c.items[n + 1]
        r2, _ = c.go(c.root, m.it.load_ref(r.st, ref), St(dict(r.st.c), g))
        bad = differs(m, c, r2, nxt[1], nxt[0], nxt[2])
        if bad:
            return "after nth(%d): %s" % (n, bad[0]), bad[1]
    return None


def size_hint(m, c, root, exact):
    B = m.B
    r, _ = c.go(root, c.vals[0], c.sts[0])
    if r.err or r.val is None:
        return r.err or "it does not return", None
    lo, up = r.val[1][0][1], r.val[1][1]
    ug, uf = m.it.some(up)
    ug = B.AND(ug, r.st.pc)
    w = len(lo)
    for k in range(len(c.items)):
        e = B.AND(c.ends(k), r.st.pc)
        d = B.AND(e, B.ult(B.const(k, w), lo))
        if d:
            return "it announces at least more than the %d items there are" % k, d
        if exact:
            d = B.AND(e, B.NOT(B.AND(B.eq(lo, B.const(k, w)), B.AND(ug, B.eq(uf[0][1], B.const(k, w))) if uf else 0)))
            if d:
                return "it does not announce exactly the %d items there are" % k, d
        if uf:
            d = B.AND(B.AND(c.items[k][1], ug), B.ult(uf[0][1], B.const(k + 1, w)))
            if d:
                return "it announces at most %d items where there are more" % k, d
    return None


def count(m, c, root, exact):
    B = m.B
    for k in range(min(3, len(c.items))):
        e = c.ends(k)
        if e:
            r, _ = c.go(root, c.vals[0], St(dict(c.sts[0].c), e))
            if r.err or r.val is None:
                return r.err or "it does not return", None
            d = B.AND(r.st.pc, B.NOT(B.eq(r.val[1], B.const(k, len(r.val[1])))))
            if d:
                return "it is not %d where there are %d items" % (k, k), d
    return None


def last(m, c, root, exact):
    for k in range(min(3, len(c.items))):
        e = c.ends(k)
        if e:
            r, ref = c.go(root, c.vals[0], St(dict(c.sts[0].c), e))
            it = c.items[k - 1] if k else (None, 0, {})
            bad = differs(m, c, r, e if k else 0, it[0], it[2])
            if bad:
                return "of %d items: %s" % (k, bad[0]), bad[1]
    return None


def next_back(m, c, root, exact):
    for k in range(min(3, len(c.items))):
        e = c.ends(k)
        if not e:
            continue
        r, ref = c.go(root, c.vals[0], St(dict(c.sts[0].c), e))
        it = c.items[k - 1] if k else (None, 0, {})
        bad = differs(m, c, r, e if k else 0, it[0], it[2])
        if bad:
            return "from the end of %d items: %s" % (k, bad[0]), bad[1]
        if k:
            # what is left are the first k - 1
            r2, _ = c.go(c.root, m.it.load_ref(r.st, ref), St(dict(r.st.c), e))
            bad = differs(m, c, r2, e if k > 1 else 0, c.items[0][0], c.items[0][2])
            if bad:
                return "after the last of %d items was taken: %s" % (k, bad[0]), bad[1]
    return None


JUDGE = {"nth": nth, "size_hint": size_hint, "count": count, "len": count, "last": last, "next_back": next_back}
