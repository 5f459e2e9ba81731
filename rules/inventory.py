"""Whole-program inventories and effect rules: C10, C11, C12, C14, C22."""
import json
import os
import subprocess

import enums
import total
import walk
from model import Model, Missing, Subject
from absint import St

HW = ("__cpuid_count", "__cpuid", "__get_cpuid_max")
NATIVE = "CpuIdReaderNative"

# effects a pure function of the CPUID data must not have; prefix match on resolved paths
IMPURE = (
    "core::sync::", "core::cell::", "alloc::rc", "alloc::sync", "std::", "core::intrinsics::atomic", "core::intrinsics::volatile",
    "core::ptr::read_volatile", "core::ptr::write_volatile", "core::core_arch::", "core::arch::", "core::time",
    "core::ptr::write", "core::ptr::mut_ptr", "core::intrinsics::ptr_offset_from", "core::net", "core::task", "core::panic::Location::caller",
)
STDOK = ("std::fmt", "std::ops", "std::cmp", "std::option", "std::result", "std::iter", "std::slice", "std::str", "std::convert",
         "std::clone", "std::default", "std::mem", "std::num", "std::array", "std::hash", "std::marker", "std::any", "std::char", "std::intrinsics",
         "std::string", "std::vec", "std::boxed", "std::borrow", "std::error", "std::primitive", "std::ascii")
CELLS = ("core::cell::", "core::sync::", "std::sync::", "std::cell::", "alloc::rc", "alloc::sync", "std::rc", "std::collections", "std::thread", "once_cell", "lazy_static")


def local_calls(p, also_foreign=True):
    """(caller fn, call fn constant, line) for every resolved call in local bodies"""
    for f in p.fns:
        if not f["local"]:
            continue
        for b in f.get("blocks", ()):
            t = b["t"]
            if t["k"] == "call":
                fn = t["f"].get("c", {}).get("fn")
                if fn:
                    yield f, fn, t["ln"]


def base_path(p):
    """`<impl core::cell::Cell<T>>::set`-style paths to a module prefix"""
    return p.lstrip("<").replace("impl ", "")


def holds_cells(p, ty, seen):
    """path of an interior-mutable or pointer component inside a type, or None"""
    if ty in seen:
        return None
    seen.add(ty)
    t = p.types[ty]
    k = t["k"]
    if k == "ptr":
        return t["name"]
    if k == "adt":
        if t["path"].startswith(CELLS):
            return t["path"]
        # core containers (slice iterators and the like) are judged by what they contain
        for v in t.get("v", ()) if t.get("local") else ():
            for f in v["f"]:
                r = holds_cells(p, f[1], seen)
                if r:
                    return r
        for x in t.get("targs", ()):
            r = holds_cells(p, x, seen)
            if r:
                return r
        return None
    if k in ("tuple", "closure"):
        for x in t["f"]:
            r = holds_cells(p, x, seen)
            if r:
                return r
        return None
    if k in ("array", "slice"):
        return holds_cells(p, t["of"], seen)
    if k == "ref":
        if t.get("mut"):
            return t["name"]
        return holds_cells(p, t["to"], seen)
    return None


def configs(ctx):
    return ["", "std", "serialize"]


def library(f):
    """a function of the library proper (not derive output for serialisation)"""
    return "serde" not in f["path"]


def c10(ctx):
    ctx.explanation = (
        "Whole-crate effect analysis of the type-checked program in the default, std and serialize configurations: no mutable or "
        "interior-mutable static, no type with a Cell/atomic/pointer component, no call into synchronisation, cell, I/O, time, "
        "environment or architecture functions other than CPUID itself, no store through a raw pointer, no pointer-to-integer cast, "
        "and no exclusive-reference method except Iterator::next. With these, a result can only depend on arguments and CPUID data."
    )
    for feat in configs(ctx):
        p = ctx.prog(feat)
        tag = feat or "default"
        ctx.count("configurations")
        for c in p.d["consts"]:
            if c["static"]:
                ctx.count("statics")
                if c["mut"] or not c["freeze"] or holds_cells(p, c["t"], set()):
                    ctx.bad("static:" + c["path"], "%s configuration: static %s is mutable shared state" % (tag, c["path"]), at=c["span"])
                else:
                    ctx.good()
        for a in p.d["adts"]:
            r = holds_cells(p, a["t"], set())
            ctx.count("types_checked")
            if r:
                ctx.bad("type:" + a["path"], "%s configuration: type %s contains %s" % (tag, a["path"], r), at=a["span"])
            else:
                ctx.good()
        for f, fn, ln in local_calls(p):
            rp = fn.get("rpath", fn["path"])
            ctx.count("call_sites")
            bp = base_path(rp)
            if bp.startswith("std::") and fn.get("crate") in ("core", "alloc"):
                bp = fn["crate"] + bp[3:]  # a re-export, named after the crate it was reached through
            bad = bp.startswith(IMPURE) and not bp.startswith(STDOK)
            if rp.rsplit("::", 1)[-1] in HW or not library(f):
                bad = False
            if fn.get("foreign"):
                bad = True
            if bad:
                ctx.bad("call:%s->%s" % (f["path"], rp), "%s configuration: %s calls %s (state or environment outside the CPUID data)" % (tag, f["path"], rp), at=ln)
            else:
                ctx.good()
        for f in p.fns:
            if not f["local"]:
                continue
            ctx.count("functions_checked")
            if any(b["t"]["k"] == "asm" for b in f.get("blocks", ())):
                ctx.bad("asm:" + f["path"], "%s configuration: %s contains inline assembly" % (tag, f["path"]), at=f["span"])
            for w in raw_writes(p, f):
                ctx.bad("write:" + f["path"], "%s configuration: %s %s" % (tag, f["path"], w), at=f["span"])
            if uses_static(f):
                for s in uses_static(f):
                    ctx.count("static_uses")
                    if s.split("::")[0] in ("std", "alloc"):
                        ctx.bad("static-use:%s" % f["path"], "%s uses static %s" % (f["path"], s), at=f["span"])
        for r in p.roots:
            if r["pub"] and r.get("self") and r["ins"]:
                t = p.types[r["ins"][0]]
                if t["k"] == "ref" and t.get("mut"):
                    ctx.count("exclusive_methods")
                    if (r.get("trait") or "").split("<")[0].split("::", 1)[-1] not in ("iter::Iterator", "iter::DoubleEndedIterator", "iter::FusedIterator", "iter::ExactSizeIterator") and not bitflags_method(r):
                        s = p.types[t["to"]].get("path", "")
                        if s == r["self"]:
                            ctx.bad("mut:" + r["path"], "%s changes a reported value in place" % r["path"], at=r["span"])
                            continue
                    ctx.good()
    ctx.floor("functions_checked", 900)
    ctx.floor("types_checked", 250)

    # semantic part: running any read-only call leaves its receiver as it was
    m = ctx.model()
    for g in sorted(m.getter_roots()):
        c = m.ctor()
        st = St(dict(c.st.c), 1)
        ref = m.it.newcell(st, c.val)
        r = m.run(m.getter_roots()[g], [ref], st)
        ctx.count("receivers_compared")
        if r.err:
            continue
        if m.it.load_ref(r.st, ref) != c.val:
            ctx.bad("receiver:" + g, "CpuId::%s changes the instance it is called on" % g, at=r.root["span"])
        else:
            ctx.good()


def bitflags_method(r):
    return "_::" in r["path"] and r["name"] in ("insert", "remove", "toggle", "set", "extend")


def places(x):
    """all place expressions below a statement"""
    if isinstance(x, list):
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        yield x
        for y in x.values():
            yield from places(y)


def raw_writes(p, f):
    out = []
    for b in f.get("blocks", ()):
        for s in b["s"]:
            if s[0] == "=":
                d = s[1]
                if is_raw_deref(p, f, d):
                    out.append("stores through a raw pointer")
                r = s[2]
                if isinstance(r, list) and r and isinstance(r[0], str):
                    txt = json.dumps(r)
                    if "PointerExposeProvenance" in txt:
                        out.append("turns an address into a number")
    return out


def is_raw_deref(p, f, place):
    l, projs = place_parts(place)
    if l is None or not projs:
        return False
    t = p.types[f["locals"][l]]
    return projs[0] == "*" and t["k"] == "ptr"


def place_parts(pl):
    """(local, projection list) of a dumped place"""
    if isinstance(pl, dict) and "l" in pl:
        return pl["l"], [x if isinstance(x, str) else x for x in pl.get("p", [])]
    if isinstance(pl, list) and pl and isinstance(pl[0], int):
        return pl[0], pl[1] if len(pl) > 1 and isinstance(pl[1], list) else list(pl[1:])
    return None, []


def uses_static(f):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get("static"), str):
                out.add(x["static"])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)

    go(f.get("blocks", []))
    return sorted(out)


# ------------------------------------------------------------------ C11
def native_types(p):
    """local types without data that read the host processor"""
    return [a["t"] for a in p.d["adts"] if a["path"].rsplit("::", 1)[-1] == NATIVE]


def mentions(p, ty, want, seen=None):
    seen = set() if seen is None else seen
    if ty in seen:
        return False
    seen.add(ty)
    if ty in want:
        return True
    t = p.types[ty]
    subs = list(t.get("targs", ()))
    for k in ("to", "of"):
        if isinstance(t.get(k), int):
            subs.append(t[k])
    if t["k"] in ("tuple", "closure"):
        subs += list(t.get("f", ()))
    if t["k"] == "adt":
        for v in t.get("v", ()):
            subs += [f[1] for f in v["f"]]
    return any(mentions(p, x, want, seen) for x in subs)


def is_native_root(p, root, nat):
    """a public entry that names the host processor in its own signature"""
    return any(mentions(p, t, nat) for t in list(root["ins"]) + [root["out"]]) or "native_cpuid::" in root["path"]


def c11(ctx):
    p = ctx.prog()
    ctx.explanation = (
        "Source-tracking dataflow over type-checked MIR: every CPUID read reached from any public entry (constructors, leaf queries, accessors, "
        "iterator steps from any position, formatting, comparison, clone) carries the identity of the reader value it was made through; it must be "
        "the reader handed to the constructor. Separately the call graph: only functions whose own signature names the native reader can reach the "
        "CPUID instruction, and no other function creates or names a native reader."
    )
    nat = set(native_types(p))
    if not nat:
        raise Missing("type " + NATIVE)

    def work(ctx, item):
        if item == "graph":
            return graph(ctx, nat)
        for m, rs in total.runs_of(ctx, item):
            for run in rs:
                sourced(ctx, m, run, nat)

    ctx.pmap(["graph"] + total.work_items(ctx), work)
    ctx.floor("entry_points_analysed", 500)
    ctx.floor("reads_traced", 60)
    ctx.floor("hw_callers", 1)


def sourced(ctx, m, run, nat):
    r = run.res
    ctx.count("entry_points_analysed")
    if r.err:
        ctx.bad(run.label + ":unanalysed", "the CPUID source of %s cannot be derived: %s" % (run.label, r.err), at=r.root["span"])
        return
    ok = ("cpuid", "cpuid@hw") if run.kind == "free" and is_native_root(m.p, r.root, nat) else ("cpuid",)
    for e in r.events:
        if e["kind"] == "badreader" and e["pc"]:
            ctx.bad("%s:source" % e["fn"] if "fn" in e else run.label, "%s reads CPUID through a source that is not the one of its instance" % run.label, at=r.root["span"])
        elif e["kind"] in ("read", "cut") and e["pc"]:
            ctx.count("reads_traced")
            if e["tag"] not in ok:
                what = "the host processor" if e["tag"] == "cpuid@hw" else "another source"
                ctx.bad("%s:source" % e["fn"], "%s (reached from %s) reads %s instead of the source of its instance" % (e["fn"], run.label, what), at=e["ln"])
            else:
                ctx.good()
    ctx.good()


def graph(ctx, nat):
    for feat in configs(ctx):
        p = ctx.prog(feat)
        nat = set(native_types(p))
        roots = {r["i"]: r for r in p.roots}
        fi = {id(f): i for i, f in enumerate(p.fns)}
        callees = {}
        for f, fn, ln in local_calls(p):
            i = fi[id(f)]
            callees.setdefault(i, []).append((fn, ln))
        hw = set()
        for i, cs in callees.items():
            for fn, ln in cs:
                if fn.get("rpath", fn["path"]).rsplit("::", 1)[-1] in HW:
                    hw.add(i)
                    ctx.count("hw_callers")
        reach = set(hw)
        grew = True
        while grew:
            grew = False
            for i, cs in callees.items():
                if i not in reach and any(fn.get("i") in reach for fn, ln in cs):
                    reach.add(i)
                    grew = True
        for i in sorted(reach):
            f = p.fns[i]
            r = roots.get(i)
            own = is_native_root(p, r, nat) if r else "native_cpuid::" in f["path"] or any(mentions(p, t, nat) for t in f["locals"][: f["argc"] + 1])
            ctx.count("functions_reaching_hw")
            if not own:
                ctx.bad("hw:" + f["path"], "%s can execute the CPUID instruction although nothing in its signature says so" % f["path"], at=f["span"])
            else:
                ctx.good()
        # who can get hold of a native reader
        for i, f in enumerate(p.fns):
            if not f["local"]:
                continue
            ctx.count("functions_scanned")
            if not any(mentions(p, t, nat) for t in f["locals"]):
                continue
            sig = any(mentions(p, t, nat) for t in f["locals"][: f["argc"] + 1])
            if not sig and "native_cpuid" not in f["path"] and not f["path"].startswith("<native_cpuid"):
                ctx.bad("native:" + f["path"], "%s makes a host-processor source of its own" % f["path"], at=f["span"])
            else:
                ctx.good()


# ------------------------------------------------------------------ C12
def regs_of(m, v, ty):
    """{field: bits} of a CpuIdResult value"""
    t = m.types[ty]
    if v is None or v[0] != "s" or t["k"] != "adt":
        return {}
    return {f[0]: (x[1] if x is not None and x[0] == "b" else None) for f, x in zip(t["v"][0]["f"], v[1])}


def passes_through(ctx, m, label, root, args, leaf, sub, tag, st=None):
    """one read with exactly (leaf, sub) whose registers arrive unchanged in the fields of the same name"""
    r = m.run(root, args, st or St({}, 1))
    ctx.count("sources_compared")
    if r.err:
        return ctx.bad(label, "%s cannot be analysed: %s" % (label, r.err), at=root["span"])
    reads = [e for e in r.kinds("read") if e["pc"]]
    if len(reads) != 1 or reads[0]["pc"] != 1:
        return ctx.bad(label, "%s executes CPUID %d times%s, exactly once is required" % (label, len(reads), " conditionally" if reads else ""), at=root["span"])
    e = reads[0]
    if e["tag"] != tag:
        return ctx.bad(label, "%s reads from %s" % (label, {"cpuid@hw": "the host processor", "cpuid": "the given source"}.get(e["tag"], "an unknown source")), at=e["ln"])
    for what, got, want in (("leaf", e["leaf"], leaf), ("sub-leaf", e["sub"], sub)):
        if m.resize(got, 64) != m.resize(want, 64):
            return ctx.bad(label, "%s asks for %s %s; requested: %s" % (label, what, m.fmtbits(got), m.fmtbits(want)), at=e["ln"])
    if r.st.pc != 1:
        return ctx.bad(label, "%s does not always return" % label, at=root["span"])
    got = regs_of(m, r.val, root["out"])
    lc, sc = m.B.is_const(e["leaf"]), m.B.is_const(e["sub"])
    for reg in ("eax", "ebx", "ecx", "edx"):
        want = m.B.word((tag, lc if lc is not None else e["leaf"], sc if sc is not None else e["sub"], reg), 32)
        if got.get(reg) != want:
            return ctx.bad("%s.%s" % (label, reg), "%s returns in %s: %s" % (label, reg, m.fmtbits(got[reg]) if got.get(reg) else "nothing"), at=root["span"])
        ctx.count("registers_compared")
        ctx.good()
    ctx.sample("%s: leaf and sub-leaf unchanged, four registers in their own fields" % label)


WITNESS = """#![no_std]
use raw_cpuid::{cpuid, CpuIdResult};
pub fn one(a: u32) -> CpuIdResult { cpuid!(a) }
pub fn two(a: u32, c: u32) -> CpuIdResult { cpuid!(a, c) }
pub fn narrow(a: u8, c: u16) -> CpuIdResult { cpuid!(a, c) }
pub fn wide(a: u64, c: usize) -> CpuIdResult { cpuid!(a, c) }
pub fn signed(a: i32, c: i32) -> CpuIdResult { cpuid!(a, c) }
pub fn expr(a: u32, c: u32) -> CpuIdResult { cpuid!(a | 1, c ^ 2) }
"""


def c12(ctx):
    ctx.explanation = (
        "Bit-provenance of the native source and of every way to reach it (cpuid1, cpuid2, closure sources, the cpuid! macro expanded in a "
        "client crate, CpuId::new and Default): the CPUID intrinsic is reached exactly once, with the caller's leaf and sub-leaf bits (0 without "
        "sub-leaf), and the four result words arrive unchanged in the fields of the same name, for all argument values and register contents."
    )
    p = ctx.prog()
    by = {}
    for r in p.roots:
        by.setdefault(r["path"], r)

    def words(m, root):
        return [m.it.sym(t, ("arg", k)) if m.width_of(t) else None for k, t in enumerate(root["ins"])]

    m = Model(p, order="bitwise")
    root = by.get("native_cpuid::cpuid_count")
    if root is None:
        raise Missing("native_cpuid::cpuid_count")
    a, c = m.it.sym(root["ins"][0], ("arg", 0)), m.it.sym(root["ins"][1], ("arg", 1))
    passes_through(ctx, m, "native_cpuid::cpuid_count", root, [a, c], a[1], c[1], "cpuid@hw")

    nat = set(native_types(p))
    n = 0
    for r in p.roots:
        if (r.get("trait") or "").split("<")[0] != "CpuIdReader" and not (r["path"].startswith("CpuIdReader::cpuid")):
            continue
        if r["name"] not in ("cpuid1", "cpuid2") or len(r["ins"]) != (2 if r["name"] == "cpuid1" else 3):
            continue
        m = Model(p, order="bitwise")
        st = St({}, 1)
        native = any(mentions(p, t, nat) for t in r["ins"])
        if native:
            v = m.it.sym(p.types[r["ins"][0]]["to"], ("self",))
        else:
            v = ("o", ("reader",))
        self_ref = m.it.newcell(st, v)
        ws = [m.it.sym(t, ("arg", k)) for k, t in enumerate(r["ins"][1:])]
        passes_through(ctx, m, r["path"], r, [self_ref] + ws, ws[0][1], ws[1][1] if len(ws) > 1 else m.B.const(0, 32), "cpuid@hw" if native else "cpuid", st)
        n += 1
    ctx.cover["reader_methods"] = n

    # a raw result is all zero exactly when every bit of it is 0
    r = p.meth.get(("CpuIdResult", "all_zero"))
    if r is None:
        raise Missing("CpuIdResult::all_zero")
    m = Model(p, order="bitwise")
    st = St({}, 1)
    v = m.it.sym(p.types[r["ins"][0]]["to"], ("self",))
    x = m.run(r, [m.it.newcell(st, v)], st)
    want = 1
    for f in v[1]:
        want = m.B.AND(want, m.B.eq(f[1], m.B.const(0, 32)))
    if x.err:
        ctx.bad("all_zero", "CpuIdResult::all_zero cannot be analysed: %s" % x.err, at=r["span"])
    elif x.st.pc != 1 or x.val is None or x.val[0] != "b" or x.val[1][0] != want:
        ctx.bad("all_zero", "CpuIdResult::all_zero does not say whether all four registers are 0", at=r["span"])
    else:
        ctx.good()
        ctx.count("raw_result_queries")

    # the default instance uses the native source: same value as the general constructor on it
    n = 0
    for r in p.roots:
        if not r["pub"] or r["ins"] or p.types[r["out"]].get("path") != "CpuId":
            continue
        m = Model(p)
        x = m.run(r, [], St({}, 1))
        n += 1
        if x.err:
            ctx.bad(r["path"], "%s cannot be analysed: %s" % (r["path"], x.err), at=r["span"])
            continue
        reads = [e for e in x.kinds("read") if e["pc"]]
        for e in reads:
            if e["tag"] != "cpuid@hw":
                ctx.bad(r["path"], "%s does not read the processor" % r["path"], at=e["ln"])
            else:
                ctx.good()
        if not reads:
            ctx.bad(r["path"], "%s reads nothing from the processor" % r["path"], at=r["span"])
        g = Model(p, rid="hw")
        y = g.ctor()
        t = p.types[r["out"]]
        mine = dict(zip([f[0] for f in t["v"][0]["f"]], x.val[1]))
        gt = p.types[y.root["out"]]
        ref = dict(zip([f[0] for f in gt["v"][0]["f"]], y.val[1]))
        for f in sorted(ref):
            if f not in mine or is_source(ref[f]):
                continue
            ctx.count("fields_compared")
            if canon(m, mine[f]) != canon(g, ref[f]):
                ctx.bad("%s.%s" % (r["path"], f), "%s does not set %s the way a caller-supplied source would" % (r["path"], f), at=r["span"])
            else:
                ctx.good()
    ctx.cover["default_constructors"] = n

    # the macro, as a client sees it
    w = ctx.client("vwitness", WITNESS)
    wm = {r["path"].rsplit("::", 1)[-1]: r for r in w.roots}
    for name in ("one", "two", "narrow", "wide", "signed", "expr"):
        r = wm.get(name)
        if r is None:
            raise Missing("macro witness " + name)
        m = Model(w, order="bitwise")
        ws = [m.it.sym(t, ("arg", k)) for k, t in enumerate(r["ins"])]
        bits = []
        for x, t in zip(ws, r["ins"]):
            b = x[1]
            if w.types[t]["k"] == "int":
                b = tuple(b) + (b[-1],) * (32 - len(b)) if len(b) < 32 else b
            b = m.resize(b, 32)
            bits.append(b)
        if name == "expr":
            bits = [(1,) + bits[0][1:], (bits[1][0], m.B.NOT(bits[1][1])) + bits[1][2:]]
        passes_through(ctx, m, "cpuid!(%s)" % name, r, ws, bits[0], bits[1] if len(bits) > 1 else m.B.const(0, 32), "cpuid@hw")
        ctx.count("macro_forms")
    ctx.floor("reader_methods", 3)
    ctx.floor("default_constructors", 2)
    ctx.floor("macro_forms", 6)
    ctx.floor("registers_compared", 40)


def is_source(v):
    return v is not None and (v[0] == "o" or (v[0] == "s" and len(v[1]) == 0))


def canon(m, v):
    """value with its BDDs spelled out, comparable across managers"""
    B = m.B
    memo = {}

    def f(x):
        if x < 2:
            return x
        if x not in memo:
            memo[x] = hash((B.names[B.lvl[x]], f(B.lo[x]), f(B.hi[x])))
        return memo[x]

    def go(v):
        if v is None:
            return None
        if v[0] == "b":
            return ("b",) + tuple(f(x) for x in v[1])
        if v[0] == "s":
            return ("s",) + tuple(go(x) for x in v[1])
        if v[0] == "e":
            return ("e",) + tuple((a, f(g), tuple(go(x) for x in fs)) for a, g, fs in v[2])
        return v

    return go(v)


# ------------------------------------------------------------------ C14
# operations whose contract the rule knows how to discharge
VIEW = "core::slice::from_raw_parts"


def c14(ctx):
    ctx.explanation = (
        "Inventory of every operation that needs `unsafe` in the type-checked program (unsafe calls, raw-pointer dereferences, transmutes, inline "
        "assembly, unsafe impls and functions) in the default, std and serialize configurations. The only admitted operation is the creation of a "
        "read-only slice view; for each such site the pointer's object, its remaining initialised length and the requested length are derived by "
        "abstract execution of the entries reaching it, and must satisfy length <= object, fixed padding-free layout, an object owned by the "
        "caller, a result lifetime tied to that object, and UTF-8 validation before it becomes text."
    )
    for feat in configs(ctx):
        p = ctx.prog(feat)
        tag = feat or "default"
        derived = set()
        for i in p.d["impls"]:
            if i["unsafe"]:
                ctx.count("unsafe_impls")
                if not i["derived"]:
                    ctx.bad("impl:%s for %s" % (i["trait"], i["self"]), "%s configuration: unsafe impl of %s for %s" % (tag, i["trait"], i["self"]), at=i["span"])
                else:
                    ctx.good()
        for r in p.roots:
            if r["unsafe"] and r["pub"]:
                ctx.bad("fn:" + r["path"], "%s configuration: %s is a public unsafe function" % (tag, r["path"]), at=r["span"])
        for f in p.fns:
            if not f["local"]:
                continue
            ctx.count("functions_scanned")
            for what, ln in unsafe_ops(p, f):
                ctx.bad("unsafe:%s:%s" % (f["path"], what), "%s configuration: %s %s" % (tag, f["path"], what), at=ln or f["span"])
        ctx.good()
    p = ctx.prog()
    sites = {}
    for f, fn, ln in local_calls(p):
        if fn.get("rpath", fn["path"]) == VIEW:
            sites[(f["path"], ln)] = dict(f=f, seen=0)
            ctx.count("view_sites")
    m0 = Model(p)
    gs = sorted(m0.getter_roots())

    def work(ctx, g):
        m = Model(p)
        for run in walk.runs(m, [g]):
            for e in run.res.kinds("rawslice"):
                ctx.count("view@%s@%s" % (e["fn"], e["ln"]))
                view(ctx, m, run, e)
            if run.res.err and any(e for e in run.res.kinds("rawslice")):
                ctx.bad(run.label + ":unanalysed", "%s: %s" % (run.label, run.res.err), at=run.res.root["span"])

    ctx.pmap(gs, work)
    for (fp, ln), s in sorted(sites.items()):
        if ctx.cover.get("view@%s@%s" % (fp, ln), 0) == 0:
            ctx.bad("view:" + fp, "the memory view made by %s is not reached by any analysed entry: its bounds are not established" % fp, at=ln)
        else:
            ctx.good()
        # its lifetime: the function's result may only borrow from its arguments
        for r in p.roots:
            if r["path"] == fp and "rout" in r:
                ins = [x for l in r["rin"] for x in l]
                for x in r["rout"]:
                    ctx.count("result_lifetimes")
                    if x not in ins:
                        ctx.bad("lifetime:" + fp, "%s returns a view of memory that is not tied to its argument's lifetime" % fp, at=r["span"])
                    else:
                        ctx.good()
    for k in [k for k in ctx.cover if k.startswith("view@")]:
        ctx.cover["views_bounded"] = ctx.cover.get("views_bounded", 0) + ctx.cover.pop(k)
    ctx.floor("functions_scanned", 900)
    if sites:
        ctx.floor("views_bounded", len(sites))


def view(ctx, m, run, e):
    B = m.B
    n = B.is_const(e["len"])
    key = "view:" + e["fn"]
    elem = m.types[e["elem"]]
    if e["own"]:
        return ctx.bad(key, "%s makes a view of its own local variable" % e["fn"], at=e["ln"])
    if n is None:
        return ctx.bad(key, "the length of the view made by %s is not a constant" % e["fn"], at=e["ln"])
    if not (elem["k"] == "uint" and elem["bits"] == 8) and m.it.plain_size(e["elem"]) is None:
        return ctx.bad(key, "%s makes a view of elements whose layout is not fixed (%s)" % (e["fn"], elem["name"]), at=e["ln"])
    for v in e["views"]:
        if v is None:
            return ctx.bad(key, "the object behind the view made by %s cannot be shown initialised and free of padding" % e["fn"], at=e["ln"])
        if n > v:
            return ctx.bad(key, "%s makes a view of %d elements of an object that has %d left" % (e["fn"], n, v), at=e["ln"])
    ctx.good()
    ctx.sample("%s: view of %d of %s elements, via %s" % (e["fn"], n, e["views"], run.label))


def unsafe_ops(p, f):
    out = []
    for b in f.get("blocks", ()):
        t = b["t"]
        if t["k"] == "asm":
            out.append(("contains inline assembly", t.get("ln")))
        if t["k"] == "call":
            fn = t["f"].get("c", {}).get("fn")
            if fn is None:
                ty = None
            elif fn.get("unsafe"):
                rp = fn.get("rpath", fn["path"])
                own = "i" in fn and p.fns[fn["i"]]["local"]
                if rp not in (VIEW, VIEW.replace("core", "std")) and not own and not rp.startswith(("core::fmt::", "std::fmt::", "core::core_arch", "core::arch")):
                    out.append(("calls the unsafe function " + rp, t["ln"]))
            if fn is not None and fn.get("foreign"):
                out.append(("calls foreign code " + fn["path"], t["ln"]))
        for s in b["s"]:
            if s[0] != "=":
                continue
            for pl in all_places(s):
                if is_raw_deref(p, f, pl):
                    if s[2][0] == "rawptr":
                        continue
                    out.append(("dereferences a raw pointer", None))
            rv = s[2]
            if isinstance(rv, list) and rv[0] == "cast" and rv[1]["k"] == "Transmute" and f["kind"] != "shim":
                out.append(("reinterprets %s as %s" % (p.types[rv[1]["from"]]["name"], p.types[rv[1]["to"]]["name"]), None))
    return out


def all_places(s):
    yield s[1]

    def go(x):
        if isinstance(x, dict):
            if "p" in x and isinstance(x["p"], list):
                yield x["p"]
            for y in x.values():
                yield from go(y)
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                yield x
            for y in x:
                yield from go(y)

    yield from go(s[2])


# ------------------------------------------------------------------ C22
def c22(ctx):
    ctx.explanation = (
        "Crate-graph and call-graph inventory of the default configuration: the crates the compiler loads for the library are core, the flag "
        "macro crate and compiler built-ins only; no foreign item, no std or alloc path appears among the resolved callees or types reachable "
        "from any library function; and the resolved cargo dependency graph without optional features has the flag macro crate as its only node."
    )
    p = ctx.prog()
    crates = set(p.d["crates"])
    for c in sorted(crates):
        ctx.count("crates_loaded")
        if c not in ("core", "bitflags", "compiler_builtins"):
            ctx.bad("crate:" + c, "the default build links crate %s" % c)
        else:
            ctx.good()
    for f in p.fns:
        ctx.count("functions_scanned")
        for b in f.get("blocks", ()):
            t = b["t"]
            if t["k"] != "call":
                continue
            fn = t["f"].get("c", {}).get("fn")
            if fn:
                rp = base_path(fn.get("rpath", fn["path"]))
                ctx.count("callees")
                if rp.startswith(("alloc::", "std::")) and f["local"]:
                    ctx.bad("callee:%s->%s" % (f["path"], rp), "%s uses %s in the default build" % (f["path"], rp), at=t["ln"])
                elif fn.get("foreign"):
                    ctx.bad("foreign:%s" % fn["path"], "%s calls foreign code %s" % (f["path"], fn["path"]), at=t["ln"])
                else:
                    ctx.good()
    for t in p.types:
        if t["k"] == "adt":
            ctx.count("types_scanned")
            if t["path"].startswith(("alloc::", "std::")):
                ctx.bad("type:" + t["path"], "type %s of the default build needs more than core" % t["path"])
            else:
                ctx.good()
    meta = ctx.metadata()
    pkg = [x for x in meta["packages"] if x["name"] == "raw-cpuid"]
    if not pkg:
        raise Missing("package raw-cpuid")
    pkg = pkg[0]
    for d in pkg["dependencies"]:
        if d["kind"] in (None, "normal"):
            ctx.count("dependencies")
            if not d["optional"] and d["name"] != "bitflags":
                ctx.bad("dep:" + d["name"], "dependency %s is not optional" % d["name"])
            elif d["name"] == "bitflags" and (set(d["features"]) & {"std", "serde"}):
                ctx.bad("dep:bitflags", "the flag macro crate is built with %s" % d["features"])
            else:
                ctx.good()
        elif d["kind"] == "build":
            ctx.bad("dep:" + d["name"], "build dependency %s" % d["name"])
    for f in pkg["features"].get("default", []):
        ctx.bad("feature:" + f, "feature %s is on by default" % f)
    ctx.good()
    ctx.floor("functions_scanned", 900)
    ctx.floor("dependencies", 5)
