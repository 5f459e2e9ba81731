"""Every way a client can run library code on a reported value: leaf queries, accessors,
nested payloads, enumeration steps and items, and the formatting / comparison / clone impls."""
import enums
from absint import St, UNIT
from model import Missing, Model, Subject

FMT = ("core::fmt::Debug", "core::fmt::Display")
SKIP_TRAITS = ("bitflags::Flags",)


class Run:
    __slots__ = ("label", "kind", "res", "subj", "name")

    def __init__(self, label, kind, res, subj, name):
        self.label, self.kind, self.res, self.subj, self.name = label, kind, res, subj, name


def local_struct(m, ty):
    t = m.types[ty]
    return t["k"] == "adt" and t["local"] and t["kind"] == "struct"


def is_iter(m, subj):
    return m.trait(subj.ty, "core::iter::Iterator", "next") is not None


def subjects(m, getters=None, items=True, cache=None):
    """all reported values: (Subject, is_iterator)"""
    if cache is None:
        cache = m.__dict__.setdefault("_subjects", {})
    key = (tuple(getters) if getters else None, items)
    if key in cache:
        return cache[key]
    out = []
    for g in sorted(getters or m.getter_roots()):
        root = m.p.meth[("CpuId", g)]
        if not m.is_option(root["out"]):
            continue
        todo = [m.payload(g)]
        while todo:
            s = todo.pop(0)
            out.append(s)
            if s.val is None or s.guard == 0:
                continue
            for n, r in sorted(m.accessors(s.ty).items()):
                o = r["out"]
                if m.is_option(o):
                    o = m.opt_payload(o)
                if local_struct(m, o) and s.label.count(".") < 3:
                    try:
                        todo.append(m.nested(s, n))
                    except Missing:
                        pass
            if items and is_iter(m, s):
                it = first_item(m, s)
                if it is not None:
                    todo.append(it)
    cache[key] = out
    return out


def hz_of(s):
    """CPUID reads analysed per step: all of a finite enumeration, a few of an open-ended one"""
    sp = [p for p in enums.SPECS if p.getter == s.sec]
    return sp[0].smax + 2 if sp and sp[0].last is not None else 3


def first_item(m, s):
    """the item of the first step, as a Subject (structs only; unwraps one-variant enums)"""
    root = m.trait(s.ty, "core::iter::Iterator", "next")
    st = St(dict(s.st.c), s.guard)
    ref = m.it.newcell(st, s.val)
    r = m.run(root, [ref], st, horizon=hz_of(s))
    m.__dict__.setdefault("_steps", {})[s.label] = r
    if r.err or r.val is None:
        return None
    g, fs = m.it.some(r.val)
    if not fs:
        return None
    ty = m.opt_payload(root["out"])
    g = m.B.AND(g, r.st.pc)
    t = m.types[ty]
    if g and local_struct(m, ty) and all(f[2] for f in t["v"][0]["f"]):
        # clients can build this value themselves: any contents
        return Subject(s.label + "[]", ty, m.it.sym(ty, ("any", s.label)), St({}, 1), 1, s.sec)
    val = fs[0]
    if t["k"] == "adt" and t["kind"] == "enum" and len(t["v"]) == 1 and t["v"][0]["f"]:
        # single-variant wrapper (SgxSectionInfo::Epc)
        e = Subject(s.label + "[]", t["v"][0]["f"][0][1], None, r.st, g, s.sec)
        ge, pf = m.it.enum_guard(val, t["v"][0]["n"])
        e.val = pf[0] if pf else None
        return e
    if t["k"] == "adt" and t["local"]:
        return Subject(s.label + "[]", ty, val, r.st, g, s.sec)
    return None


def runs(m, getters=None, traits=True, steps=2):
    """all Runs"""
    out = []
    if getters is None:
        out.append(Run("CpuId::with_cpuid_reader", "ctor", m.ctor(), None, "with_cpuid_reader"))
    gs = sorted(getters or m.getter_roots())
    for g in gs:
        out.append(Run("CpuId::" + g, "query", m.getter(g), None, g))
    for s in subjects(m, gs if getters else None):
        if s.val is None or s.guard == 0:
            continue
        for n in sorted(m.accessors(s.ty)):
            out.append(Run("%s.%s" % (s.label, n), "accessor", m.call(s, n), s, n))
        if is_iter(m, s):
            out += step_runs(m, s, steps)
        if traits:
            out += trait_runs(m, s)
    return out


def step_runs(m, s, steps):
    root = m.trait(s.ty, "core::iter::Iterator", "next")
    st = St(dict(s.st.c), s.guard)
    ref = m.it.newcell(st, s.val)
    out = []
    if any(p.skip and p.limit is not None for p in enums.SPECS if p.getter == s.sec) or not m.p_reads(root):
        steps = 1
    for k in range(steps):
        rr = m.run(root, [ref], st, horizon=hz_of(s) if k == 0 else 4)
        if not rr.err and rr.val is not None:
            rr.ref = ref
            rr.cell = m.it.load_ref(rr.st, ref)
        out.append(Run("%s.next#%d" % (s.label, k + 1), "step", rr, s, "next"))
        if rr.err or rr.val is None:
            break
        g, fs = m.it.some(rr.val)
        st = St(dict(rr.st.c), m.B.AND(rr.st.pc, g))
        if not st.pc:
            break
    return out


def fmt_run(m, s, trait, horizon=None):
    root = m.trait(s.ty, trait, "fmt")
    if root is None:
        return None
    st = St(dict(s.st.c), s.guard)
    a = m.it.newcell(st, s.val)
    f = m.it.newcell(st, ("o", ("formatter",)))
    r = m.run(root, [a, f], st, horizon, nexts=1)
    r.ref = a
    if not r.err and a[1] and r.st.pc:
        r.cell = m.it.load_ref(r.st, a)
    return r


def clone_run(m, s):
    root = m.trait(s.ty, "core::clone::Clone", "clone")
    if root is None:
        return None
    st = St(dict(s.st.c), s.guard)
    a = m.it.newcell(st, s.val)
    r = m.run(root, [a], st)
    r.ref = a
    return r


def eq_run(m, s, s2):
    root = m.trait(s.ty, "core::cmp::PartialEq", "eq")
    if root is None:
        return None
    st = St(dict(s.st.c), m.B.AND(s.guard, s2.guard))
    for k, v in s2.st.c.items():
        st.c.setdefault(k, v)
    a = m.it.newcell(st, s.val)
    b = m.it.newcell(st, s2.val)
    return m.run(root, [a, b], st)


def trait_runs(m, s):
    out = []
    hz = 3 if is_iter(m, s) else 48
    for t in FMT:
        r = fmt_run(m, s, t, hz)
        if r is not None:
            out.append(Run("%s: %s" % (s.label, t.split("::")[-1]), "fmt", r, s, t))
    r = clone_run(m, s)
    if r is not None:
        out.append(Run("%s: Clone" % s.label, "clone", r, s, "clone"))
    r = eq_run(m, s, s)
    if r is not None:
        out.append(Run("%s: PartialEq" % s.label, "eq", r, s, "eq"))
    return out


# ------------------------------------------------------------------ any history of an enumeration
def positions(m, sp=None):
    """(Subject, Fit) of the iterator value: which integer of its state is the position"""
    if sp is None:
        subj = m.payload("get_cache_info")
        root = enums.next_root(m, subj.ty)
        # only the first byte of EAX may hold a descriptor here: enough to see the position move
        B = m.B
        pc = subj.guard
        for g in ("eax", "ebx", "ecx", "edx"):
            w = m.ev.word(2, 0, g)
            pc = B.AND(pc, B.eq(w[16:32], (0,) * 16) if g == "eax" else B.eq(w, (0,) * 32))
        st = St(dict(subj.st.c), pc)
        ref = m.it.newcell(st, subj.val)
        r = m.run(root, [ref], st, horizon=1)
        r.cell = m.it.load_ref(r.st, ref) if not r.err and r.val is not None else None
        if r.err or r.cell is None:
            return subj, None
        a, b = dict(enums.leaves(subj.val)), dict(enums.leaves(r.cell))
        ch = [p for p in a if a[p] != b.get(p)]
        if len(ch) != 1 or a[ch[0]][0] != "b" or m.B.is_const(a[ch[0]][1]) is None:
            return subj, None
        return subj, enums.Fit(ch[0], m.B.is_const(a[ch[0]][1]), len(a[ch[0]][1]), 0)
    subj = enums.iterator(m, sp)
    root = enums.next_root(m, subj.ty)
    st = St(dict(subj.st.c), subj.guard)
    ref = m.it.newcell(st, subj.val)
    r = m.run(root, [ref], st, horizon=min(sp.smax, 5 if sp.last is None else sp.smax) + 2)
    if r.err or r.val is None:
        return subj, None
    r.cell = m.it.load_ref(r.st, ref)
    return subj, enums.fit(m, sp, subj, r, m.B.AND(r.st.pc, m.it.some(r.val)[0]))


def item_subject(m, r, label, sec):
    g, fs = m.it.some(r.val) if r.val is not None else (0, None)
    g = m.B.AND(g, r.st.pc)
    ty = m.opt_payload(r.root["out"])
    t = m.types[ty]
    if not g or not fs or t["k"] != "adt" or not t["local"]:
        return None
    val = fs[0]
    if t["kind"] == "enum" and len(t["v"]) == 1 and t["v"][0]["f"]:
        ge, pf = m.it.enum_guard(val, t["v"][0]["n"])
        ty, val, g = t["v"][0]["f"][0][1], (pf[0] if pf else None), m.B.AND(g, ge)
    elif t["kind"] != "struct":
        return None
    return Subject(label, ty, val, r.st, g, sec) if g and val is not None else None


def any_step(m, sp, subj, ft, pos=None):
    """one step from an arbitrary (or the given) position; positions whose successor is not
    representable are outside the analysed histories"""
    B = m.B
    if pos is not None:
        n, pc = B.const(pos, ft.width), subj.guard
    else:
        n = B.word(("cursor", sp.name), min(ft.width, 32)) + (0,) * max(0, ft.width - 32)
        pc = B.AND(subj.guard, B.NOT(B.eq(n, B.const((1 << ft.width) - 1, ft.width))))
    return enums.step_from(m, sp, subj, ft, n, sp.smax + 2 if sp and sp.last is not None else 1, pc), n


# ------------------------------------------------------------------ the rest of the public surface
def self_runs(m):
    """the instance itself: Debug, Clone"""
    c = m.ctor()
    ty = [r for (s, n), r in m.p.meth.items() if s == "CpuId" and n == "get_vendor_info"]
    if not ty:
        return []
    s = Subject("CpuId", m.types[ty[0]["ins"][0]]["to"], c.val, c.st, c.st.pc)
    out = []
    for t in FMT:
        r = fmt_run(m, s, t)
        if r is not None:
            out.append(Run("CpuId: %s" % t.split("::")[-1], "fmt", r, s, t))
    r = clone_run(m, s)
    if r is not None:
        out.append(Run("CpuId: Clone", "clone", r, s, "clone"))
    return out


def opaque_struct(m, ty, depth=0):
    """a type whose contents clients cannot choose (private fields)"""
    t = m.types[ty]
    if t["k"] == "ref":
        return opaque_struct(m, t["to"], depth)
    if t["k"] == "adt" and t["local"]:
        if t["kind"] == "struct":
            return any(not f[2] or opaque_struct(m, f[1], depth + 1) for f in t["v"][0]["f"])
        return any(opaque_struct(m, f[1], depth + 1) for v in t["v"] for f in v["f"])
    return False


def standalone_roots(p):
    m = Model(p)
    out = []
    for root in p.roots:
        if not root["pub"] or root["name"] == "assert_fields_are_eq":
            continue
        if (root["ins"] or m.types[root["out"]].get("path") == "CpuId") and not any(opaque_struct(m, t) for t in root["ins"]):
            out.append(root)
    return out


def standalone(m, root):
    """a public function whose arguments clients choose freely, for all argument values"""
    from model import READER
    st = St({}, 1)
    args = []
    for k, t in enumerate(root["ins"]):
        tt = m.types[t]
        inner = m.types[tt["to"]] if tt["k"] in ("ref", "ptr") else tt
        if inner["k"] == "param":
            v = READER
        elif inner.get("path") in ("core::fmt::Formatter",):
            v = ("o", ("formatter",))
        elif tt["k"] == "ref" and inner["k"] not in ("str", "slice"):
            v = m.it.sym(tt["to"], ("arg", root["path"], k))
        else:
            args.append(m.it.sym(t, ("arg", root["path"], k)))
            continue
        args.append(m.it.newcell(st, v) if tt["k"] == "ref" else v)
    return Run(root["path"], "free", m.run(root, args, st, horizon=8), None, root["name"])
