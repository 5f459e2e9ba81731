"""Documented values as structures, and their comparison with abstract values.

("bits", bits)                 integer / bool with these bits, zero extended
("opt", guard, exp)            Option: Some(exp) exactly under guard
("tup", [exp, ...])            tuple
("var", [(name, guard, [exp, ...])])   enum: variant `name` exactly under guard
("any",)                       unconstrained
"""


def diff(m, care, v, exp):
    """BDD of inputs (within care) on which abstract value v is not the documented one;
    None when v has an incomparable shape"""
    B = m.B
    it = m.it
    if care == 0:
        return 0
    k = exp[0]
    if k == "any":
        return 0
    if v is None:
        return care
    if k == "bits":
        return m.diff_bits(care, v, exp[1])
    if k == "opt":
        if v[0] != "e":
            return None
        g, fs = it.some(v)
        d = B.AND(care, B.XOR(g, exp[1]))
        both = B.AND(care, B.AND(g, exp[1]))
        if both:
            x = diff(m, both, fs[0], exp[2])
            if x is None:
                return None
            d = B.OR(d, x)
        return d
    if k == "tup":
        if v[0] != "s" or len(v[1]) != len(exp[1]):
            return None
        d = 0
        for a, e in zip(v[1], exp[1]):
            x = diff(m, care, a, e)
            if x is None:
                return None
            d = B.OR(d, x)
        return d
    if k == "var":
        if v[0] != "e":
            return None
        t = m.types[v[1]]
        names = {x["n"] for x in t["v"]}
        d = 0
        for name, guard, pay in exp[1]:
            if name == "?":
                continue
            if name not in names:
                return None
            g, fs = it.enum_guard(v, name)
            want = guard
            # the same variant may be listed several times
            for n2, g2, _ in exp[1]:
                if n2 == name and g2 is not guard:
                    want = B.OR(want, g2)
            free = 0
            for n2, g2, _ in exp[1]:
                if n2 == "?":
                    free = B.OR(free, g2)
            c2 = B.AND(care, B.NOT(free))
            d = B.OR(d, B.AND(c2, B.XOR(g, want)))
            if pay and fs:
                both = B.AND(B.AND(c2, g), guard)
                for a, e in zip(fs, pay):
                    x = diff(m, both, a, e)
                    if x is None:
                        return None
                    d = B.OR(d, x)
            elif pay and not fs and B.AND(c2, guard):
                d = B.OR(d, B.AND(c2, guard)) if g == 0 else d
        return d
    raise ValueError(k)


def show(m, v):
    """short rendering of an abstract value"""
    if v is None:
        return "nothing"
    if v[0] == "b":
        return m.fmtbits(v[1])
    if v[0] == "e":
        t = m.types[v[1]]
        return "one of {%s}" % ", ".join(t["v"][i]["n"] for i, g, f in v[2])
    if v[0] == "s":
        return "(" + ", ".join(show(m, x) for x in v[1]) + ")"
    return v[0]


# ------------------------------------------------------------------ documented formulas
def assoc1(E, n):
    B = E.B
    k = lambda c: B.eq(n, B.const(c, 8))
    lo = B.ult(n, B.const(2, 8))
    ff = k(0xFF)
    return ("var", [
        ("Disabled", k(0), []),
        ("DirectMapped", k(1), []),
        ("FullyAssociative", ff, []),
        ("NWay", B.NOT(B.OR(lo, ff)), [("bits", n)]),
        ("Unknown", 0, []),
    ])


L2WAYS = {2: 2, 4: 4, 5: 6, 6: 8, 8: 16, 0xA: 32, 0xB: 48, 0xC: 64, 0xD: 96, 0xE: 128}


def assoc2(E, n):
    B = E.B
    k = lambda c: B.eq(n, B.const(c, 4))
    nway = 0
    pay = B.const(0, 8)
    for c, w in L2WAYS.items():
        nway = B.OR(nway, k(c))
        pay = B.mux(k(c), B.const(w, 8), pay)
    known = B.OR(nway, B.OR(k(0), B.OR(k(1), k(15))))
    return ("var", [
        ("Disabled", k(0), []),
        ("DirectMapped", k(1), []),
        ("FullyAssociative", k(15), []),
        ("NWay", nway, [("bits", pay)]),
        ("Unknown", B.NOT(known), []),
    ])


HYPERVISORS = [
    ("VMware", b"VMwareVMware"),
    ("Xen", b"XenVMMXenVMM"),
    ("HyperV", b"Microsoft Hv"),
    ("KVM", b"KVMKVMKVM\0\0\0"),
    ("QEMU", b"TCGTCGTCGTCG"),
    ("Bhyve", b"bhyve bhyve "),
    ("Bhyve", b"BHyVE BHyVE "),
    ("QNX", b"QNXQVMBSQG\0\0"),
    ("ACRN", b"ACRNACRNACRN"),
]


def hypervisor(E):
    B = E.B
    ws = [E.word(0x40000000, 0, r) for r in ("ebx", "ecx", "edx")]
    alts = []
    known = 0
    for name, s in HYPERVISORS:
        g = 1
        for i, w in enumerate(ws):
            g = B.AND(g, B.eq(w, B.const(int.from_bytes(s[4 * i : 4 * i + 4], "little"), 32)))
        alts.append((name, g, []))
        known = B.OR(known, g)
    alts.append(("Unknown", B.NOT(known), [("bits", w) for w in ws]))
    return ("var", alts)


def family_model(E, which):
    """display family / model; care excludes sums that do not fit u8"""
    B = E.B
    eax = E.word(1, 0, "eax")
    bf, em, bm, ef = eax[8:12], eax[16:20], eax[4:8], eax[20:28]
    isF = B.eq(bf, B.const(15, 4))
    is6 = B.eq(bf, B.const(6, 4))
    unknown = B.NOT(B.OR(E.amd, E.intel))
    s, c = B.add(bf + (0, 0, 0, 0), ef)
    if which == "family":
        base = B.AND(B.NOT(isF), B.NOT(unknown))
        return ("bits", B.mux(base, bf + (0,) * 4, s)), B.OR(base, B.NOT(c))
    base = B.OR(B.AND(E.amd, B.NOT(isF)), B.AND(E.intel, B.NOT(B.OR(isF, is6))))
    return ("bits", B.mux(base, bm + (0,) * 4, bm + em)), 1


def derived(m, E, args):
    """documented formula -> (expectation, care)"""
    B = E.B
    f = args[0]
    if f == "family_id":
        return family_model(E, "family")
    if f == "model_id":
        return family_model(E, "model")
    if f == "serial64":
        return ("bits", E.word(3, 0, "ecx") + E.word(3, 0, "edx")), 1
    if f == "serial96":
        return ("bits", E.word(3, 0, "ecx") + E.word(3, 0, "edx") + E.word(1, 0, "eax")), 1
    if f == "secs_attributes":
        w = lambda r: E.word(0x12, 1, r)
        return ("tup", [("bits", w("eax") + w("ebx")), ("bits", w("ecx") + w("edx"))]), 1
    if f == "pt":
        reg, hi, lo = args[1], int(args[2]), int(args[3])
        ge1 = B.NOT(B.eq(E.word(0x14, 0, "eax"), B.const(0, 32)))
        w = E.word(0x14, 1, reg)[lo : hi + 1]
        return ("bits", tuple(B.AND(ge1, x) for x in w)), 1
    if f == "tsc_frequency":
        a, b, c = (E.word(0x15, 0, r) for r in ("eax", "ebx", "ecx"))
        nz = 1
        for w in (a, b, c):
            nz = B.AND(nz, B.NOT(B.eq(w, B.const(0, 32))))
        z = (0,) * 32
        p, _ = m.it.mul(c + z, b + z, False)
        q = m.it.divrem("Div", p, a + z, False)
        return ("opt", nz, ("bits", q)), 1
    if f == "hvfreq":
        g = E.le_const(0x40000010, E.word(0x40000000, 0, "eax"))
        return ("opt", g, ("bits", E.word(0x40000010, 0, args[1]))), 1
    if f == "hypervisor":
        return hypervisor(E), 1
    if f == "perf_tsc_size":
        s = E.word(0x80000008, 0, "ecx")[16:18]
        r = B.const(40, 8)
        for i, v in enumerate((40, 48, 56, 64)):
            r = B.mux(B.eq(s, B.const(i, 2)), B.const(v, 8), r)
        return ("bits", r), 1
    if f == "max_logical":
        n = E.word(0x80000008, 0, "ecx")[12:16]
        return ("bits", tuple(B.eq(n, B.const(i, 4)) for i in range(16))), 1
    if f in ("assoc1", "assoc2"):
        leaf, reg, hi, lo = int(args[1], 16), args[2], int(args[3]), int(args[4])
        n = E.word(leaf, 0, reg)[lo : hi + 1]
        return (assoc1 if f == "assoc1" else assoc2)(E, n), 1
    raise ValueError("unknown formula " + f)


def enum_expr(E, toks):
    """enum FIELD k=Name ... *=Name[(payload)]"""
    B = E.B
    f = E.field(toks[0])
    alts = []
    known = 0
    rest = None
    for t in toks[1:]:
        k, n = t.split("=")
        if k == "*":
            rest = n
            continue
        g = B.eq(f, B.const(int(k), len(f)))
        alts.append((n, g, []))
        known = B.OR(known, g)
    if rest:
        if "(" in rest:
            n, p = rest[:-1].split("(")
            alts.append((n, B.NOT(known), [("bits", E.field(p if "[" in p else p + "[31:0]"))]))
        else:
            alts.append((rest, B.NOT(known), []))
    # merge duplicate names (several codes for one variant)
    out = {}
    for n, g, p in alts:
        if n in out:
            out[n] = (n, B.OR(out[n][1], g), p or out[n][2])
        else:
            out[n] = (n, g, p)
    return ("var", list(out.values()))


def expectation(m, E, expr):
    """(expected structure, care, is_derived) for a spec expression"""
    if expr.startswith("= "):
        e, c = derived(m, E, expr[2:].split())
        return e, c
    if expr.startswith("enum "):
        return enum_expr(E, expr.split()[1:]), 1
    return ("bits", E.bits(expr)), 1
