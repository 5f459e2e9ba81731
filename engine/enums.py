"""Documented sub-leaf enumerations and their exact unrolling over sub-leaf numbers."""
from model import Missing, Subject
from absint import St

REGS = ("eax", "ebx", "ecx", "edx")
# documented components of the extended state: XCR0 and IA32_XSS bits the library models
XCR0_BITS = (0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 17, 18)
XSS_BITS = (8, 10, 11, 12, 13, 14, 15, 16)


class EnumSpec:
    def __init__(self, name, getter, path, start, leaf, valid=None, limit=None, member=None, skip=False,
                 smax=6, steps=3, item=None, unwrap=None, last=None):
        self.name, self.getter, self.path, self.start = name, getter, path, start
        self.leaf = leaf          # const or "amd?a:b"
        self.valid = valid        # f(E, words) -> BDD : the sub-leaf holds an item
        self.limit = limit        # f(E) -> bits : last admissible sub-leaf (None = end marker only)
        self.member = member      # f(E, s) -> BDD : sub-leaf is read at all (ext. state)
        self.skip = skip          # invalid sub-leaves are skipped instead of ending the list
        self.smax, self.steps = smax, steps
        self.item, self.unwrap = item, unwrap
        self.last = last          # constant last sub-leaf

    def words(self, E, s):
        """registers of sub-leaf s (int, or bits for a symbolic cursor)"""
        if isinstance(self.leaf, tuple):
            a, b = self.leaf
            return {r: E.B.mux(E.amd, E.word(a, s, r), E.word(b, s, r)) for r in REGS}
        return {r: E.word(self.leaf, s, r) for r in REGS}


def _type(reg, hi, lo):
    def f(E, w):
        B = E.B
        return B.NOT(B.eq(w[reg][lo : hi + 1], (0,) * (hi - lo + 1)))
    return f


def cache_valid(E, w):
    t = w["eax"][0:5]
    B = E.B
    return B.AND(B.NOT(B.eq(t, (0,) * 5)), B.ult(t, B.const(4, 5)))


def topo_valid(E, w):
    t = w["ecx"][8:16]
    B = E.B
    return B.AND(B.NOT(B.eq(t, (0,) * 8)), B.ult(t, B.const(6, 8)))


def epc_valid(E, w):
    return E.B.eq(w["eax"][0:4], E.B.const(1, 4))


def xs_member(E, s):
    a = E.word(0xD, 0, "eax")[s] if s in XCR0_BITS else 0
    b = E.word(0xD, 1, "ecx")[s] if s in XSS_BITS else 0
    return E.B.OR(a, b)


SPECS = [
    EnumSpec("cache parameters", "get_cache_parameters", [], 0, (0x8000001D, 4), cache_valid, item="cache_parameter", smax=5, steps=5),
    EnumSpec("extended topology", "get_extended_topology_info", [], 0, 0xB, topo_valid, item="topology_level", smax=5, steps=5),
    EnumSpec("extended topology v2", "get_extended_topology_info_v2", [], 0, 0x1F, topo_valid, item="topology_level", smax=5, steps=5),
    EnumSpec("extended state", "get_extended_state_info", ["iter"], 2, 0xD, None, member=xs_member, skip=True, last=31, smax=31, steps=5, item="extended_state"),
    EnumSpec("SGX sections", "get_sgx_info", ["iter"], 2, 0x12, epc_valid, item="sgx_epc", unwrap="Epc", smax=6, steps=5),
    EnumSpec("address translation", "get_deterministic_address_translation_info", [], 0, 0x18, _type("edx", 4, 0),
             limit=lambda E: E.word(0x18, 0, "eax"), skip=True, smax=4, steps=2, item="dat"),
    EnumSpec("SoC attributes", "get_soc_vendor_info", ["get_vendor_attributes"], 4, 0x17, None,
             limit=lambda E: E.word(0x17, 0, "eax"), smax=9, steps=5, item=None),
    EnumSpec("AMD topology", "get_extended_cpu_topology", [], 0, 0x80000026, _type("ecx", 15, 8), item="cpu_topology_level", smax=5, steps=5),
]


def expected_steps(sp, E, steps):
    """for each step: (item guard, end guard, {reg: bits}, sub bits, beyond guard)"""
    B = E.B
    out = []
    cur = {sp.start: 1}        # cursor position -> guard
    beyond = 0
    for _ in range(steps):
        nxt = {}
        end = 0
        item = 0
        words = None
        sub = None
        for c in sorted(cur):
            g = cur[c]
            s = c
            while g:
                if sp.last is not None and s > sp.last:
                    end = B.OR(end, g)
                    break
                if s > sp.smax:
                    beyond = B.OR(beyond, g)
                    break
                if sp.limit is not None:
                    over = B.ult(sp.limit(E), B.const(s, 32))
                    end = B.OR(end, B.AND(g, over))
                    g = B.AND(g, B.NOT(over))
                    if not g:
                        break
                w = sp.words(E, s)
                v = 1
                if sp.member is not None:
                    v = sp.member(E, s)
                elif sp.valid is not None:
                    v = sp.valid(E, w)
                hit = B.AND(g, v)
                if hit:
                    item = B.OR(item, hit)
                    if words is None:
                        words, sub = dict(w), B.const(s, 32)
                    else:
                        words = {r: B.mux(hit, w[r], words[r]) for r in REGS}
                        sub = B.mux(hit, B.const(s, 32), sub)
                    nxt[s + 1] = B.OR(nxt.get(s + 1, 0), hit)
                miss = B.AND(g, B.NOT(v))
                if not sp.skip:
                    end = B.OR(end, miss)
                    break
                g = miss
                s += 1
        out.append((item, end, words, sub, beyond))
        cur = nxt
    return out


def iterator(m, sp):
    """Subject of the iterator value"""
    s = m.payload(sp.getter)
    for a in sp.path:
        s = m.nested(s, a)
    return s


def next_root(m, ty):
    r = m.trait(ty, "core::iter::Iterator", "next")
    if r is None:
        raise Missing("no Iterator::next for " + m.tpath(ty))
    return r


def unrolled(m, sp, steps=None):
    """actual steps: list of (Result, item value, guard, item type)"""
    subj = iterator(m, sp)
    root = next_root(m, subj.ty)
    st = St(dict(subj.st.c), subj.guard)
    ref = m.it.newcell(st, subj.val)
    out = []
    ity = m.opt_payload(root["out"])
    for _ in range(steps or sp.steps):
        r = m.run(root, [ref], st, horizon=sp.smax + 2)
        if r.err:
            out.append((r, None, 0, ity))
            break
        if r.val is None:
            out.append((r, None, 0, ity))
            break
        r.ref = ref
        r.cell = m.it.load_ref(r.st, ref)
        g, fs = m.it.some(r.val)
        g = m.B.AND(g, r.st.pc)
        item = fs[0] if fs else None
        t = ity
        if sp.unwrap and item is not None:
            ge, pf = m.it.enum_guard(item, sp.unwrap)
            # which variant it is stays part of the guard
            item = pf[0] if pf else None
            v = [v for v in m.types[ity]["v"] if v["n"] == sp.unwrap]
            t = v[0]["f"][0][1] if v else ity
            g = m.B.AND(g, ge)
        out.append((r, item, g, t))
        st = St(dict(r.st.c), g)
        if g == 0:
            break
    return subj, out


# ------------------------------------------------------------------ induction over the cursor
def leaves(v, path=()):
    """(path, integer leaf) pairs of a value tree"""
    if v is None:
        return
    if v[0] == "b":
        yield path, v
    elif v[0] == "s":
        for i, x in enumerate(v[1]):
            yield from leaves(x, path + (i,))
    elif v[0] == "e":
        yield path, ("tag", tuple((a, g) for a, g, f in v[2]))
        for a, g, fs in v[2]:
            for i, x in enumerate(fs):
                yield from leaves(x, path + ("v%d" % a, i))
    else:
        yield path, v


def put(v, path, new):
    if not path:
        return new
    assert v[0] == "s"
    i = path[0]
    return ("s", v[1][:i] + (put(v[1][i], path[1:], new),) + v[1][i + 1 :])


def get(v, path):
    for i in path:
        v = v[1][i]
    return v


class Fit:
    """the iterator's position as one integer of its state: path, initial constant, and the
    constant distance between the position and the sub-leaf a step reads first"""

    def __init__(self, path, c0, width, off):
        self.path, self.c0, self.width, self.off = path, c0, width, off


def fit(m, sp, subj, r, guard):
    """r: Result of the first step; None when the state is not a single cursor"""
    B = m.B
    it = m.it
    if r.err or r.val is None or guard == 0:
        return None
    after = r.cell
    if after is None:
        return None
    a = dict(leaves(subj.val))
    b = dict(leaves(after))
    if set(a) != set(b):
        return None
    ch = []
    for p in a:
        if a[p] == b[p]:
            continue
        if a[p][0] == "b" and b[p][0] == "b" and len(a[p][1]) == len(b[p][1]):
            d = 0
            for x, y in zip(a[p][1], b[p][1]):
                d = B.OR(d, B.AND(guard, B.XOR(x, y)))
            if d == 0:
                continue
            ch.append(p)
        else:
            return None
    if len(ch) != 1 or any(not isinstance(i, int) for i in ch[0]):
        return None
    c0 = B.is_const(a[ch[0]][1])
    if c0 is None:
        return None
    reads = r.kinds("read")
    if not reads:
        return None
    s0 = B.is_const(reads[0]["sub"])
    if s0 is None:
        s0 = sp.start      # positions merged before the first read: the step obligations below verify this
    return Fit(ch[0], c0, len(a[ch[0]][1]), s0 - c0)


def step_from(m, sp, subj, ft, bits, horizon, pc=None):
    """one step of next() with the cursor set to `bits`"""
    root = next_root(m, subj.ty)
    st = St(dict(subj.st.c), subj.guard if pc is None else pc)
    ref = m.it.newcell(st, put(subj.val, ft.path, ("b", bits)))
    r = m.run(root, [ref], st, horizon=horizon)
    r.ref = ref
    if not r.err and r.val is not None:
        r.cell = m.it.load_ref(r.st, ref)
    return r
