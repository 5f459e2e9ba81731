"""C05: a leaf is reported exactly when supported.  C06: only supported, documented
(leaf, sub-leaf) pairs are read."""
import re
import enums
from fields import SPEC, sec_leaf
from spec import load, AMD_RESERVED
from model import Missing, Subject
from absint import St
from natives import distinct_consts


def nested_entries(sec):
    return [e for e in sec.entries if e.expr.startswith("->")]


def nested_gate(m, ent):
    e = ent.expr[2:].strip()
    if e == "soc_brand":
        return m.ev.le_const(3, m.ev.word(0x17, 0, "eax"))
    return m.ev.cond(e)


def c05(ctx):
    m = ctx.model()
    B = m.B
    ctx.explanation = (
        "For every leaf query the analysis derives, over type-checked MIR, the exact Boolean function of CPUID bits "
        "(maximum-leaf registers, vendor signature, gating feature bits) under which it returns Some, and compares its "
        "canonical form with the documented support condition; equality covers every limit, vendor string and feature bit."
    )
    secs = [s for s in load(SPEC) if s.kind == "getter"]
    known = set()
    for sec in secs:
        known.add(sec.name)
        key = "CpuId::" + sec.name
        s = m.payload(sec.name)
        want = m.ev.cond(sec.gate)
        r = m.getter(sec.name)
        d = B.AND(r.st.pc, B.XOR(s.guard, want))
        ctx.count("leaf_queries")
        if d:
            more = B.AND(d, s.guard)
            ctx.bad(
                key,
                "%s %s although the leaf is %s (documented condition: %s)"
                % (key, "returns a value" if more else "returns nothing", "not supported" if more else "supported", sec.gate),
                at=r.root["span"],
                witness=m.describe(more or d),
            )
        else:
            ctx.good()
            ctx.sample("%s is Some exactly when %s" % (key, sec.gate))
        for ent in nested_entries(sec):
            k2 = key + "." + ent.name
            n = m.nested(s, ent.name)
            w = nested_gate(m, ent)
            pc = m.call(s, ent.name).st.pc
            d = B.AND(pc, B.XOR(n.guard, w))
            ctx.count("sub_leaf_queries")
            if d:
                ctx.bad(k2, "%s is reported under another condition than %s" % (k2, ent.expr), at=m.call(s, ent.name).root["span"], witness=m.describe(d))
            else:
                ctx.good()
        for ent in sec.entries:
            if ent.name == "get_vendor_attributes":
                n = m.nested(s, ent.name)
                w = m.ev.le_const(4, m.ev.word(0x17, 0, "eax"))
                d = B.AND(m.call(s, ent.name).st.pc, B.XOR(n.guard, w))
                ctx.count("sub_leaf_queries")
                if d:
                    ctx.bad(key + "." + ent.name, "attributes reported under another condition than max SOCID index >= 4", witness=m.describe(d))
                else:
                    ctx.good()
    for n in m.getter_roots():
        if n not in known:
            ctx.note("leaf query without a documented condition in the table: " + n)
    ctx.cover["functions_analysed"] = len(m.it.stats["fns"])
    ctx.floor("leaf_queries", 39)
    ctx.floor("sub_leaf_queries", 10)


# ---------------------------------------------------------------- C06
# documented (leaf, sub-leaf) pairs read by each query besides leaf/0 of its own gate leaf;
# "*" = any sub-leaf (enumerations, bounded by their own rules C08)
ALLOWED = {
    "get_processor_serial": {(1, 0), (3, 0)},
    "get_cache_parameters": {(4, "*"), (0x8000001D, "*")},
    "get_extended_feature_info": {(7, 0), (7, 1)},
    "get_extended_topology_info": {(0xB, "*")},
    "get_extended_topology_info_v2": {(0x1F, "*")},
    "get_extended_state_info": {(0xD, "*")},
    "get_rdt_monitoring_info": {(0xF, 0), (0xF, 1)},
    "get_rdt_allocation_info": {(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)},
    "get_sgx_info": {(7, 0), (7, 1), (0x12, "*")},
    "get_processor_trace_info": {(0x14, 0), (0x14, 1)},
    "get_soc_vendor_info": {(0x17, "*")},
    "get_deterministic_address_translation_info": {(0x18, "*")},
    "get_hypervisor_info": {(1, 0), (0x40000000, 0), (0x40000010, 0)},
    "get_processor_brand_string": {(0x80000002, 0), (0x80000003, 0), (0x80000004, 0)},
    "get_svm_info": {(0x80000001, 0), (0x8000000A, 0)},
    "get_pqos_extended_feature_info": {(0x80000020, 0), (0x80000020, 1), (0x80000020, 2), (0x80000020, 3), (0x80000020, 5)},
    "get_extended_cpu_topology": {(0x80000026, "*")},
}
# sub-leaf -> condition under which that sub-leaf exists
SUBCOND = {
    (0x14, 1): "GE(14/0:eax,1)",
    (0xF, 1): "f/0:edx[1]",
    (0x10, 1): "10/0:ebx[1]",
    (0x10, 2): "10/0:ebx[2]",
    (0x10, 3): "10/0:ebx[3]",
    (0x17, 1): "GE(17/0:eax,3)",
    (0x17, 2): "GE(17/0:eax,3)",
    (0x17, 3): "GE(17/0:eax,3)",
    (0x80000020, 1): "80000020/0:ebx[1]",
    (0x80000020, 2): "80000020/0:ebx[2]",
    (0x80000020, 3): "80000020/0:ebx[3]",
    (0x80000020, 5): "80000020/0:ebx[5]",
}
# reading leaf 7 sub-leaf 1 unconditionally is harmless: sub-leaves above the maximum of a
# supported leaf return zeros; leaf D/1, 12/1 exist whenever the leaf does


def supported(m, leaf):
    E = m.ev
    B = m.B
    if leaf >= 0x80000000:
        return 1 if leaf == 0x80000000 else E.L(leaf)
    if leaf >= 0x40000000:
        hv = B.AND(E.L(1), E.word(1, 0, "ecx")[31])
        if leaf == 0x40000000:
            return hv
        return B.AND(hv, E.le_const(leaf, E.word(0x40000000, 0, "eax")))
    return E.L(leaf)


def has_reader(v):
    """does this abstract value contain a CPUID source?"""
    if isinstance(v, tuple):
        if v and v[0] == "o":
            return True  # opaque: assume it might
        if v and v[0] == "b":
            return False
        return any(has_reader(x) for x in v)
    return False


def read_sites(m, ctx, sec):
    """all read events of a query, its accessors, nested payloads, iterator steps and trait impls"""
    out = []
    r = m.getter(sec.name)
    if r.err:
        raise Missing("CpuId::%s: %s" % (sec.name, r.err))
    out += [("CpuId::" + sec.name, e) for e in r.events]
    s = m.payload(sec.name)
    todo = [s]
    while todo:
        x = todo.pop()
        for n, root in sorted(m.accessors(x.ty).items()):
            c = m.call(x, n)
            lab = "%s.%s" % (x.label, n)
            out += [(lab, e) for e in c.events]
            if c.err:
                ctx.note("%s: %s" % (lab, c.err))
                if c.kinds("read") == [] and "NoBound" not in c.err:
                    ctx.bad(lab, "reads of %s cannot be derived: %s" % (lab, c.err), at=root["span"])
                continue
            o = c.root["out"]
            if m.is_option(o):
                o = m.opt_payload(o)
            t = m.types[o]
            if t["k"] == "adt" and t["local"] and t["kind"] == "struct" and x.label.count(".") < 2:
                n2 = m.nested(x, n)
                if n2.guard and n2.val is not None:
                    todo.append(n2)
        if m.trait(x.ty, "core::iter::Iterator", "next"):
            root = m.trait(x.ty, "core::iter::Iterator", "next")
            sp = [p for p in enums.SPECS if p.getter == sec.name]
            st = St(dict(x.st.c), x.guard)
            ref = m.it.newcell(st, x.val)
            if not has_reader(x.val):
                ctx.note("%s holds no CPUID source: its steps cannot read" % x.label)
                continue
            hz = sp[0].smax + 2 if sp and sp[0].member else 4
            for k in range(2 if sp else 1):
                rr = m.run(root, [ref], st, horizon=hz)
                out += [("%s.next" % x.label, e) for e in rr.events]
                if rr.err:
                    ctx.bad("%s.next" % x.label, "iterator step cannot be analysed: " + rr.err, at=root["span"])
                    break
                if rr.val is None:
                    break
                g, fs = m.it.some(rr.val)
                st = St(dict(rr.st.c), m.B.AND(rr.st.pc, g))
                if not st.pc:
                    break
    return out


def c06(ctx):
    m = ctx.model()
    B = m.B
    ctx.explanation = (
        "Every CPUID-reader call site reached from a query (through its accessors, nested payloads and iterator steps) is "
        "collected by the dataflow over type-checked MIR together with the exact condition under which it is reached and the "
        "leaf/sub-leaf values it passes. The condition must imply that the leaf is supported (range and vendor rule) and that "
        "the sub-leaf exists; the pair must be one documented for that query."
    )
    secs = [s for s in load(SPEC) if s.kind == "getter"]
    ctor = m.ctor()
    for e in ctor.kinds("read"):
        l, s = B.is_const(e["leaf"]), B.is_const(e["sub"])
        ctx.count("read_sites")
        if (l, s) not in ((0, 0), (0x80000000, 0)):
            ctx.bad("constructor:%s/%s" % (l, s), "the constructor reads leaf %s sub-leaf %s" % (l, s), at=e["ln"])
        else:
            ctx.good()
    for sec in secs:
        own = sec_leaf(sec)
        allowed = ALLOWED.get(sec.name, {(own, 0)})
        gate = m.ev.cond(sec.gate)
        for lab, e in read_sites(m, ctx, sec):
            if e["kind"] != "read":
                continue
            ctx.count("read_sites")
            ls = distinct_consts(m.it, e["leaf"], e["pc"], 16)
            if ls is None:
                ctx.bad(lab + ":symbolic", "%s reads a leaf number computed from register contents" % lab, at=e["ln"])
                continue
            for g, leaf in ls:
                ss = distinct_consts(m.it, e["sub"], g, 64)
                pairs = ss if ss is not None else [(g, "*")]
                for g2, sub in pairs:
                    key = "%s:%x/%s" % (lab, leaf, sub)
                    if g2 == 0:
                        continue
                    if (leaf, sub) not in allowed and (leaf, "*") not in allowed and leaf not in (0, 0x80000000):
                        ctx.bad(key, "%s reads leaf %#x sub-leaf %s, which is not documented for it" % (lab, leaf, sub), at=e["ln"], fn=e["fn"])
                        continue
                    d = B.AND(g2, B.NOT(supported(m, leaf)))
                    if d:
                        ctx.bad(key, "%s reads leaf %#x although the processor does not support it" % (lab, leaf), at=e["ln"], fn=e["fn"], witness=m.describe(d))
                        continue
                    if leaf == own or (leaf, 0) not in allowed:
                        d = B.AND(g2, B.NOT(gate)) if leaf not in (0, 1, 7, 0x80000000, 0x80000001, 0x40000000) else 0
                        if d:
                            ctx.bad(key, "%s reads leaf %#x although it then reports the leaf as unsupported" % (lab, leaf), at=e["ln"], fn=e["fn"], witness=m.describe(d))
                            continue
                    c = SUBCOND.get((leaf, sub))
                    if c is not None:
                        d = B.AND(g2, B.NOT(m.ev.cond(c)))
                        if d:
                            ctx.bad(key, "%s reads leaf %#x sub-leaf %s although that sub-leaf does not exist" % (lab, leaf, sub), at=e["ln"], fn=e["fn"], witness=m.describe(d))
                            continue
                    ctx.good()
                    ctx.sample("%s reads %#x/%s only when supported" % (lab, leaf, sub))
    ctx.cover["functions_analysed"] = len(m.it.stats["fns"])
    ctx.floor("read_sites", 60)
