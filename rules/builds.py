"""C28: the build configuration does not change what the library computes.
Every function of the default build is matched with its counterpart in another build (optional features, no debug
assertions, 32-bit x86) and the two type-checked programs are compared construct by construct, through everything they
call in the library; where they are written differently, their results are compared as functions of all inputs."""
import re

import relate
import same
from absint import Interp
from model import Model, Missing

HW = ("__cpuid_count", "__cpuid", "__get_cpuid_max")
OTHER = [("32-bit x86", "i686"), ("ARM (no CPUID instruction)", "aarch64"), ("32-bit x86 without SSE (CPUID may be missing)", "i586"),
         ("an SGX enclave (CPUID forbidden)", "sgx"), ("no debug assertions", "nodebug")]
NO_CPUID = ("aarch64", "i586", "sgx")
FEATURES = ("std", "serialize", "display", "cli")
TYPE_KEYS = ("t", "dt", "cl", "dyn")
IGNORED = ("ln", "span", "dbg")


def named(s):
    """with the standard library linked, the compiler shows core's items under their std names"""
    if not s:
        return s
    s = re.sub(r"(?<![\w:])std::", "core::", s).replace("core::arch::x86_64::", "core::arch::x86::")
    return re.sub(r"closure@[^ ]*/registry/", "closure@/registry/", s)


class Side:
    """one build of the program, with a notation for its code that does not depend on table numbers"""

    def __init__(self, p):
        self.p = p
        self.bodies = {}
        self.tys = {}
        self.roots = {}
        for r in p.roots:
            self.roots.setdefault(self.rkey(r), r)

    def rkey(self, r):
        return self.rkey_of(self.p, r)

    @staticmethod
    def rkey_of(p, r):
        return (named(r["path"]), named(r.get("self")), named(r.get("trait")), r["name"], tuple(named(p.types[t]["name"]) for t in r["ins"]))

    def ty(self, i):
        return named(self.p.types[i]["name"]) if i >= 0 else ""

    def shape(self, i):
        """a type of the library, written out: its name, variants and fields"""
        r = self.tys.get(i)
        if r is None:
            t = self.p.types[i]
            r = named(t["name"])
            if t["k"] == "adt" and t.get("local"):
                r = (r, t["kind"], tuple((v["n"], v["d"], tuple((f[0], self.ty(f[1])) for f in v["f"])) for v in t["v"]))
            self.tys[i] = r
        return r

    def body(self, i):
        """(notation of the body with the calls numbered, callees in that order, types used)"""
        b = self.bodies.get(i)
        if b is None:
            f = self.p.fns[i]
            calls, types = [], list(f["locals"])
            b = self.bodies[i] = (self.note(f["blocks"], calls, types), calls, types)
        return b

    def note(self, x, calls, types):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict):
                f = x["fn"]
                calls.append(f.get("i"))
                return ("fn", named(f["path"]), named(f.get("rpath")), f.get("crate"), tuple(self.ty(t) for t in f.get("targs", ())))
            out = []
            for k in sorted(x):
                v = x[k]
                if k in IGNORED:
                    continue
                if k in TYPE_KEYS and isinstance(v, int) and not isinstance(v, bool):
                    types.append(v)
                    v = self.ty(v)
                elif k == "vt":
                    v = tuple((m, self.note({"fn": f}, calls, types)) for m, f in v)
                elif k == "at":
                    types.extend(v)
                    v = tuple(self.ty(t) for t in v)
                elif k in ("from", "to") and "o" in x and "k" in x and isinstance(v, int) and "from" in x:
                    types.append(v)
                    v = self.ty(v)
                else:
                    v = self.note(v, calls, types)
                out.append((k, v))
            return tuple(out)
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "f" and isinstance(x[1], int):
                return ("f", x[1], self.ty(x[2]))
            if len(x) == 6 and x[0] == "bin":
                return ("bin", x[1], self.note(x[2], calls, types), self.note(x[3], calls, types), self.ty(x[4]), self.ty(x[5]))
            if len(x) == 4 and x[0] == "un":
                return ("un", x[1], self.note(x[2], calls, types), self.ty(x[3]))
            if len(x) == 3 and x[0] == "discr":
                return ("discr", self.note(x[1], calls, types), self.ty(x[2]))
            if len(x) == 6 and x[0] == "agg":
                return ("agg", x[1], self.ty(x[2]), x[3], x[4], self.note(x[5], calls, types))
            return tuple(self.note(y, calls, types) for y in x)
        return x

    def closures(self, types):
        """bodies of the closures among these types"""
        for t in types:
            t = self.p.types[t]
            while t["k"] in ("ref", "ptr"):
                t = self.p.types[t["to"]]
            if t["k"] == "closure" and t.get("path") in self.p.closures:
                yield self.p.closures[t["path"]]


WIDE = ("Add", "Sub", "Mul", "Shl", "Shr")      # of equal operands Div, Rem and the bitwise operations give equal results


def width_sensitive(p, i):
    """constructs of this function whose result depends on how wide an address is, although their operands are equal"""
    def of_size(t):
        return t >= 0 and p.types[t]["name"] in ("usize", "isize")

    def wide(t):
        t = p.types[t]
        return t["k"] == "float" or t["k"] in ("uint", "int") and t["bits"] > 32 and t["name"] not in ("usize", "isize")

    for b in p.fns[i]["blocks"]:
        for s in b["s"]:
            r = s[2] if s[0] == "=" else None
            if not r:
                continue
            if r[0] == "bin" and of_size(r[4]) and (r[1].startswith(WIDE) or r[1].startswith(("Div", "Rem")) and p.types[r[4]]["k"] == "int"):
                return True
            if r[0] == "un" and of_size(r[3]) and r[1] in ("Not", "Neg"):
                return True
            if r[0] == "cast":
                c = r[1]
                if of_size(c["to"]) and (wide(c["from"]) or p.types[c["from"]]["k"] == "int" or p.types[c["to"]]["k"] == "int"):
                    return True
        t = b["t"]
        f = t["f"].get("c", {}).get("fn") if t["k"] == "call" else None
        if f and f.get("crate") != p.d["crate"] and any(of_size(x) for x in t["at"]) and of_size(t["dt"]):
            return True     # arithmetic of the language's own library on such integers
    return False


def same_code(a, b, ra, rb, wide):
    """None, or why the two roots are not the same code: (function, what)"""
    seen, todo = set(), [(ra["i"], rb["i"])]
    if a.ty(ra["out"]) != b.ty(rb["out"]):
        return ra["path"], "the result type differs"
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        fx, fy = a.p.fns[x], b.p.fns[y]
        if named(fx["path"]) != named(fy["path"]):
            return fx["path"], "another function is called"
        if not fx["local"]:
            continue
        if "blocks" not in fx or "blocks" not in fy:
            if ("blocks" in fx) != ("blocks" in fy):
                return fx["path"], "one has no body"
            continue
        if wide and (width_sensitive(a.p, x) or width_sensitive(b.p, y)):
            return fx["path"], "computes with integers of the size of an address"
        nx, cx, tx = a.body(x)
        ny, cy, ty = b.body(y)
        if nx != ny or len(cx) != len(cy) or [a.shape(t) for t in tx] != [b.shape(t) for t in ty]:
            return fx["path"], "the code differs"
        for c, d in zip(cx, cy):
            if (c is None) != (d is None):
                return fx["path"], "a call resolves in one build only"
            if c is not None:
                todo.append((c, d))
        todo += zip(a.closures(tx), b.closures(ty))
    return None


def shared_models(p, q):
    for order in ("major", "bitwise"):
        m = Model(p, order=order)
        n = Model(q, order=order)
        n.it.B = n.B = m.B
        n.ev.B = m.B
        yield m, n


def same_result(p, q, ra, rb):
    """None when the two functions return equal values for all arguments; otherwise what is wrong"""
    for m, n in shared_models(p, q):
        B = m.B
        x, xa = relate.run_on(m, ra, "arg")
        y, ya = relate.run_on(n, rb, "arg")
        if not x.err and not y.err:
            break
    if x.err or y.err:
        return "the results cannot be compared (%s)" % (x.err or y.err), None
    care = 1
    if p.ptr != q.ptr:
        # arguments and results the narrower build can represent
        for k, v in B.vars.items():
            if k[1] >= q.ptr and k[0] in sizes(m, xa, ra["ins"]):
                care = B.AND(care, B.NOT(v))
    d = B.AND(care, B.XOR(x.st.pc, y.st.pc))
    both = B.AND(care, B.AND(x.st.pc, y.st.pc))
    vs = [(x.val, y.val)] + list(zip(xa, ya))
    if (x.val is None) != (y.val is None):
        d = B.OR(d, care)
    for a, b in vs:
        if a is not None and b is not None:
            d = B.OR(d, differ(m, n, both, a, x.st.c, b, y.st.c))
    if d:
        return "the results differ", m.describe(d)
    return None


def sizes(m, args, ins):
    """names of the words of the arguments that have the size of an address"""
    out = set()

    def go(t, name, depth):
        if depth > 6:
            return
        t_ = m.types[t]
        if t_["name"] in ("usize", "isize"):
            out.add(name)
        elif t_["k"] in ("tuple", "closure"):
            for i, f in enumerate(t_["f"]):
                go(f, ("f", name, i), depth + 1)
        elif t_["k"] == "adt" and t_["kind"] == "struct":
            for i, f in enumerate(t_["v"][0]["f"]):
                go(f[1], ("f", name, i), depth + 1)
        elif t_["k"] in ("ref", "ptr"):
            if m.types[t_["to"]]["k"] in ("str", "slice"):
                out.add(("len", name))
            go(t_["to"], name, depth + 1)

    for k, t in enumerate(ins):
        go(t, ("arg", k), 0)
    return out


def differ(m, n, care, a, ca, b, cb):
    two = Two(m, n)
    return same.diff(two, care, a, ca, b, cb)


class Two:
    """two builds seen by the comparison of values: each value is read in its own build"""

    def __init__(self, m, n):
        self.m, self.n = m, n
        self.it, self.B = m.it, m.B
        self.it2 = n.it
        self.narrow = n.p.ptr if n.p.ptr != m.p.ptr else None

    def resize(self, bits, w):
        return self.m.resize(bits, w)

    def tpath(self, ty):
        return self.m.tpath(ty)

    def tpath2(self, ty):
        return self.n.tpath(ty)


def c28(ctx):
    ctx.explanation = (
        "Program equivalence across builds: the library is type-checked in its default build and once for every optional feature, without "
        "debug assertions, for 32-bit x86 and for targets without the CPUID instruction. Each function of the default build is paired with the same function of the other build and the "
        "MIR of the two is compared through everything they call in the library (bodies, evaluated constants, types with their fields, resolved "
        "callees). Where the code differs, or computes with address-sized integers on 32-bit x86, both are analysed on the same arbitrary "
        "arguments and their results and effects on them must be equal Boolean functions of the inputs."
    )
    ctx.assumptions += [
        "the language's own library is the same in all builds of one target and behaves alike on both targets except for the width of usize",
        "overflow checks themselves (a panic in debug builds, wrapping in release builds) are C07's subject",
    ]
    base = build(ctx, "default", "")
    if base is None:
        return
    pkg = [x for x in ctx.metadata()["packages"] if x["name"] == "raw-cpuid"][0]
    feats = sorted(f for f in pkg["features"] if f != "default" and not any(v == "dep:" + f for v in pkg["features"][f]))
    builds = [("feature " + f, f) for f in FEATURES if f in feats]
    builds += [("feature " + f, f) for f in feats if f not in FEATURES]
    builds = OTHER + builds

    def work(ctx, b):
        label, cfg = b
        q = build(ctx, label, cfg)
        ctx.count("builds_compared")
        if q is None:
            return
        if cfg in NO_CPUID:
            executes(ctx, label, q)
        compare(ctx, label, base, q, native(base) if cfg in NO_CPUID else ())

    ctx.pmap(builds, work, procs=8)
    ctx.floor("builds_compared", 8)
    ctx.floor("functions_compared", 5 * 1000)


def build(ctx, label, cfg):
    try:
        return ctx.prog(cfg)
    except Exception as e:
        if not getattr(e, "own", False):
            raise
        errs = [l for l in str(e).splitlines() if l.startswith("error")] or [""]
        at = [l.strip()[4:] for l in str(e).splitlines() if l.strip().startswith("--> src")] or [""]
        ctx.bad("%s: does not build" % label, "the library does not compile in the build with %s: %s" % (label, errs[0]), at=at[0])
    return None


def hardware(p):
    """functions of the library that execute CPUID, directly or through others of the library, and direct sites"""
    calls, direct = {}, {}
    for i, f in enumerate(p.fns):
        if not f["local"]:
            continue
        for b in f.get("blocks", ()):
            t = b["t"]
            if t["k"] == "asm":
                direct.setdefault(i, t["ln"])
            fn = t["f"].get("c", {}).get("fn") if t["k"] == "call" else None
            if fn:
                if fn["path"].split("::")[-1] in HW:
                    direct.setdefault(i, t["ln"])
                elif fn.get("i") is not None:
                    calls.setdefault(fn["i"], set()).add(i)
    out, todo = set(), list(direct)
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += calls.get(i, ())
    return out, direct


def executes(ctx, label, q):
    _, direct = hardware(q)
    ctx.count("builds_without_cpuid")
    for i, ln in sorted(direct.items()):
        ctx.bad("%s: executes in %s" % (label, q.fns[i]["path"]), "%s executes the CPUID instruction in the build for %s" % (q.fns[i]["path"], label), at=q.fns[i]["span"])
    if not direct:
        ctx.good()


def native(p):
    """roots that belong to the source reading the hardware: they execute CPUID, or are about the type that does"""
    hw, _ = hardware(p)
    own = {r["self"] for r in p.roots if r.get("i") in hw and r["name"] in ("cpuid1", "cpuid2") and r.get("self")}
    return {Side.rkey_of(p, r) for r in p.roots if r.get("i") in hw or r.get("self") in own}


def compare(ctx, label, p, q, absent=()):
    a, b = Side(p), Side(q)
    wide = p.ptr != q.ptr
    for key, ra in sorted(a.roots.items(), key=str):
        if ra["name"].startswith("__") or "i" not in ra or "InternalBitFlags" in str(key):
            continue        # (the flag macro's own carrier type, which clients cannot name)
        rb = b.roots.get(key)
        name = key[0]
        if rb is None and key in absent:
            ctx.count("native_only_functions")
            continue
        if rb is None:
            if ra["pub"] or ra.get("trait"):
                ctx.bad("%s: %s missing" % (label, name), "%s of the default build does not exist in the build with %s" % (name, label), at=ra["span"])
            continue
        ctx.count("functions_compared")
        why = same_code(a, b, ra, rb, wide)
        if why is None:
            ctx.good()
            continue
        if not (ra["pub"] or ra.get("trait")):
            continue        # judged through the public functions that use it
        ctx.count("compared_by_result")
        bad = same_result(p, q, ra, rb)
        if bad is None:
            ctx.good()
            ctx.sample("%s: %s: same result for all arguments (%s in %s)" % (label, name, why[1], why[0]))
            continue
        what, w = bad
        ctx.bad("%s: %s" % (label, name), "%s in the build with %s: %s; in %s, %s" % (name, label, what, why[0], why[1]), at=ra["span"], fn=why[0], witness=w)
