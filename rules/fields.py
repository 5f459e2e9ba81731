"""C01-C04, C17, C24: every public query's value has exactly the documented provenance."""
import os
import expect
import enums
from model import Missing, Subject
from spec import load
from absint import St

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "leaves.spec")

HYP = ("= hypervisor",)
# formulas that are derived quantities (C17); everything else numeric is C01/C03
FORMULA = ("= ", "cat ")


def is_ext(sec):
    return sec_leaf(sec) >= 0x80000000


def sec_leaf(sec):
    import re
    g = sec.gate or ""
    ls = [int(x, 16) for x in re.findall(r"L\(([0-9a-f]+)\)", g)]
    if sec.name == "get_cache_parameters":
        return 4
    return ls[-1] if ls else 0


def klass(m, sec, ent, root):
    e = ent.expr
    if e in ("iter", "str") or e.startswith("->"):
        return None
    if e == "= hypervisor":
        return "C15"
    if e.startswith(FORMULA):
        # register-field formulas are plain fields
        return "C17" if not e.startswith("= pt ") else "C01"
    out = m.types[root["out"]]
    b = out["k"] == "bool"
    ext = sec
    return ("C04" if b else "C03") if ext else ("C02" if b else "C01")


def entries(m):
    """(section, Subject, entry, is_ext, Eval) for every specified accessor of every payload"""
    secs = load(SPEC)
    items = {s.name: s for s in secs if s.kind == "item"}
    for sec in secs:
        if sec.kind != "getter":
            continue
        subj = m.payload(sec.name)
        for ent in sec.entries:
            yield sec, subj, ent, is_ext(sec)
            for k in ent.kids:
                ns = m.nested(subj, ent.name)
                yield sec, ns, k, is_ext(sec)


def item_entries(m):
    secs = load(SPEC)
    items = {s.name: s for s in secs if s.kind == "item"}
    for sp in enums.SPECS:
        if not sp.item:
            continue
        subj, steps = enums.unrolled(m, sp, 1)
        r, item, g, ty = steps[0]
        if r.err or item is None:
            raise Missing("%s: first step not analysable: %s" % (sp.name, r.err))
        ex = enums.expected_steps(sp, m.ev, 1)[0]
        care = m.B.AND(g, m.B.AND(ex[0], m.B.NOT(ex[4])))
        isub = Subject(sp.name + " item", ty, item, r.st, care)
        for ent in items[sp.item].entries:
            yield sp, isub, ent, (ex[2], ex[3])


def check_entry(ctx, m, subj, ent, E):
    """one obligation: accessor value == documented value, for all register contents"""
    key = "%s.%s" % (subj.label, ent.name)
    root = m.methods(subj.ty).get(ent.name)
    if root is None:
        ctx.bad(key, "query %s::%s no longer exists" % (m.tpath(subj.ty), ent.name))
        return
    r = m.call(subj, ent.name)
    if r.err:
        ctx.bad(key, "value of %s cannot be derived (%s)" % (key, r.err), at=root["span"])
        return
    exp, care = expect.expectation(m, E, ent.expr)
    care = m.B.AND(care, r.st.pc)
    if m.B.AND(subj.guard, care) == 0 and subj.guard != 0:
        ctx.bad(key, "%s never returns" % key, at=root["span"])
        return
    d = expect.diff(m, care, r.val, exp)
    if d is None:
        ctx.bad(key, "%s has an unexpected shape: %s, documented %s" % (key, expect.show(m, r.val), ent.expr), at=root["span"])
    elif d:
        ctx.bad(
            key,
            "%s is %s; documented: %s" % (key, expect.show(m, r.val), ent.expr),
            at=root["span"],
            got=expect.show(m, r.val),
            witness=m.describe(d),
        )
    else:
        ctx.good()
        ctx.sample("%s = %s" % (key, ent.expr))
    ctx.count("queries_compared")


EXPL = (
    "Bit-provenance dataflow over type-checked MIR: every bit of the value a query returns is tracked "
    "back (through the leaf query that builds the payload, flag masks, shifts, casts, matches and inlined "
    "callees, joining at every control-flow merge) to CPUID register bits, as a canonical Boolean function, "
    "and compared with the documented source of that quantity in spec/leaves.spec. Equality of canonical "
    "forms decides it for every register content; nothing is executed."
)


def run_class(ctx, cls, floor):
    m = ctx.model()
    ctx.explanation = EXPL
    seen = set()
    for sec, subj, ent, ext in entries(m):
        root = m.methods(subj.ty).get(ent.name)
        if root is None:
            if klass_missing(ent, ext) == cls:
                ctx.bad("%s.%s" % (subj.label, ent.name), "query %s::%s no longer exists" % (m.tpath(subj.ty), ent.name))
            continue
        if klass(m, ext, ent, root) != cls:
            continue
        check_entry(ctx, m, subj, ent, m.ev)
        seen.add(subj.label)
    if cls != "C15":
        for sp, isub, ent, item in item_entries(m):
            root = m.methods(isub.ty).get(ent.name)
            ext = sp.leaf == 0x80000026
            if root is None:
                if klass_missing(ent, ext) == cls:
                    ctx.bad("%s.%s" % (isub.label, ent.name), "query %s::%s no longer exists" % (m.tpath(isub.ty), ent.name))
                continue
            if klass(m, ext, ent, root) != cls:
                continue
            m.ev.item = item
            check_entry(ctx, m, isub, ent, m.ev)
            seen.add(isub.label)
    ctx.cover["payloads"] = len(seen)
    ctx.cover["functions_analysed"] = len(m.it.stats["fns"])
    ctx.cover["basic_blocks_transferred"] = m.it.stats["blocks"]
    ctx.floor("queries_compared", floor)


def klass_missing(ent, ext):
    b = ent.name.startswith(("has_", "is_", "xcr0_", "ia32_"))
    if ent.expr.startswith(FORMULA):
        return "C17"
    return ("C04" if b else "C03") if ext else ("C02" if b else "C01")


def c01(ctx):
    run_class(ctx, "C01", 89)


def c02(ctx):
    run_class(ctx, "C02", 214)


def c03(ctx):
    run_class(ctx, "C03", 66)


def c04(ctx):
    run_class(ctx, "C04", 134)


def c17(ctx):
    run_class(ctx, "C17", 28)
