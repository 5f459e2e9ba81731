"""Bit-precise value-flow analysis (abstract interpretation) over the MIR dump.

Forward dataflow over each function's control-flow graph.  The abstract value of every
integer bit is a Boolean function of *source bits* (bits of CPUID registers returned by
the opaque reader), kept in canonical form (bdd.py).  States are JOINED at every
control-flow merge, callees are inlined through resolved instances, loops run to the
point where the loop guard is statically false.  Nothing in the repository is executed,
and no solver and no path enumeration is involved.
"""
import json
import re
import sys
import heapq
from bdd import BDD, Blowup

sys.setrecursionlimit(200000)

T = ((1,))


class Unsupported(Exception):
    pass


class NoBound(Exception):
    pass


def b1(x):
    return ("b", (x,))


UNIT = ("s", ())


def strip0(x):
    n = len(x)
    while n and x[n - 1] == 0:
        n -= 1
    return x[:n]


KEPT = ("display", "native_cpuid")


def load(path):
    """the dump, items named without the inner modules they are kept in (a public item's home is the crate root)"""
    with open(path) as f:
        text = f.read()
    i = text.rindex('"mods":')
    mods = json.loads(text[i + 7:text.rindex("}")])
    for m in sorted(mods, key=len, reverse=True):
        ks = m.split("::")
        if ks[0] in KEPT and len(ks) == 1 or m.endswith("_"):
            continue
        text = re.sub(r"(?<![\w:])%s::(?=[\w<{])" % re.escape(m), ks[0] + "::" if ks[0] in KEPT else "", text)
    return json.loads(text)


class Prog:
    def __init__(self, path):
        d = load(path)
        self.d = d
        self.ptr = d["ptr"]
        self.fns = d["fns"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.consts = {c["path"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.meth = {}
        self.free = {}
        self.tmeth = {}
        for r in self.roots:
            if r.get("trait"):
                self.tmeth[(r["self"], r["trait"], r["name"])] = r
            elif "self" in r:
                self.meth[(r["self"], r["name"])] = r
            else:
                self.free[r["path"]] = r
        self.closures = {}
        for i, f in enumerate(self.fns):
            if f["kind"] == "item" and "blocks" in f:
                self.closures.setdefault(f["path"], i)
        self.order = {}
        self.livec = {}

    def wto(self, i):
        o = self.order.get(i)
        if o is None:
            bl = self.fns[i]["blocks"]
            tails = frozenset(self.tail_calls(i))
            pos, heads = wto(bl, tails)
            preds = {}
            for k, b in enumerate(bl):
                for x in [0] if k in tails else succs(b["t"]):
                    preds.setdefault(x, []).append(k)
            single = frozenset(x for x, ps in preds.items() if len(ps) == 1 and x and x not in heads)
            o = self.order[i] = (pos, heads, tails, single)
        return o

    def live(self, i):
        """per block: the locals that may still be read from its entry on, and the locals whose
        address is taken (never dead)"""
        r = self.livec.get(i)
        if r is None:
            r = self.livec[i] = liveness(self.fns[i]["blocks"])
        return r

    def tail_calls(self, i):
        """blocks whose call is a self-recursive tail call: its result is returned unchanged"""
        bl = self.fns[i]["blocks"]
        out = []
        for k, b in enumerate(bl):
            t = b["t"]
            if t["k"] != "call" or t["to"] < 0 or t["d"] != [0, []]:
                continue
            fn = t["f"].get("c", {}).get("fn")
            if not fn or fn.get("i") != i:
                continue
            to = t["to"]
            seen = set()
            while to not in seen and not bl[to]["s"] and bl[to]["t"]["k"] == "goto":
                seen.add(to)
                to = bl[to]["t"]["to"]
            if not bl[to]["s"] and bl[to]["t"]["k"] == "ret":
                out.append(k)
        return out


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["else"]]
    if k in ("call", "drop", "assert", "asm"):
        return [t["to"]] if t["to"] >= 0 else []
    return []


def places(x, out):
    """locals mentioned by a MIR fragment (over-approximated from its shape)"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "_k":
                places(v, out)
    elif isinstance(x, list):
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
            out.add(x[0])
        elif len(x) == 2 and x[0] == "i" and type(x[1]) is int:
            out.add(x[1])
        for v in x:
            if isinstance(v, (list, dict)):
                places(v, out)


def liveness(blocks):
    taken = set()
    use, kill, sc = [], [], []
    for b in blocks:
        steps = []
        for s in b["s"]:
            u, d = set(), None
            if s[0] == "=":
                places(s[2], u)
                if s[1][1]:
                    places(s[1], u)
                else:
                    d = s[1][0]
                if s[2][0] in ("ref", "reborrow", "rawptr"):
                    # a reference to (part of) the local itself, not through a pointer in it
                    if not any(e == "*" for e in s[2][1][1]):
                        taken.add(s[2][1][0])
            else:
                places(s[1:], u)
            steps.append((u, d))
        t = b["t"]
        u, d = set(), None
        if t["k"] == "ret":
            u.add(0)
        else:
            places({k: v for k, v in t.items() if k != "d" or t["k"] != "call"}, u)
            if t["k"] == "call":
                if t["d"][1]:
                    places(t["d"], u)
                else:
                    d = t["d"][0]
        steps.append((u, d))
        g, k = set(), set()
        for u, d in reversed(steps):
            if d is not None:
                g.discard(d)
                k.add(d)
            g |= u
        use.append(g)
        kill.append(k)
        sc.append(succs(t))
    live = [set(u) for u in use]
    pred = [[] for _ in blocks]
    for i, ss in enumerate(sc):
        for x in ss:
            pred[x].append(i)
    work = list(range(len(blocks)))
    while work:
        i = work.pop()
        n = set(use[i])
        for x in sc[i]:
            n |= live[x] - kill[i]
        if n != live[i]:
            live[i] = n
            work += pred[i]
    return [frozenset(x | taken) for x in live]


def wto(blocks, tail=()):
    """Weak topological order: every loop body precedes the loop's exits.
    Self-recursive tail calls count as edges back to the entry.
    Returns positions and, per loop head, the other blocks of its loop."""
    n = len(blocks)
    sc = [succs(b["t"]) for b in blocks]
    for k in tail:
        sc[k] = [0]
    pos = {}
    heads = {}

    def sccs(nodes, entry):
        idx = {}
        low = {}
        st = []
        on = set()
        out = []
        c = [0]

        def go(v):
            idx[v] = low[v] = c[0]
            c[0] += 1
            st.append(v)
            on.add(v)
            for w in sc[v]:
                if w not in nodes:
                    continue
                if w not in idx:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)

        for e in entry:
            if e not in idx:
                go(e)
        out.reverse()
        return out, idx

    def rec(nodes, entry):
        comps, idx = sccs(nodes, entry)
        for comp in comps:
            if len(comp) == 1 and comp[0] not in sc[comp[0]]:
                pos[comp[0]] = len(pos)
            else:
                cs = set(comp)
                h = min(comp, key=lambda v: idx[v])
                heads[h] = frozenset(cs - {h})
                pos[h] = len(pos)
                rest = cs - {h}
                if rest:
                    ent = [w for w in sc[h] if w in rest]
                    ent += sorted(rest)
                    rec(rest, ent)

    rec(set(range(n)), [0] + list(range(n)))
    return pos, heads


class St:
    __slots__ = ("c", "pc")

    def __init__(self, c, pc):
        self.c = c
        self.pc = pc


FN_TRAITS = ("core::ops::FnOnce", "core::ops::FnMut", "core::ops::Fn")
PANIC_PREFIX = (
    "core::panicking::",
    "std::panicking::",
    "core::option::unwrap_failed",
    "core::option::expect_failed",
    "core::result::unwrap_failed",
    "core::num::imp::overflow_panic",
    "core::num::imp::int_log10::panic",
    "core::slice::index::slice_",
    "core::str::slice_error_fail",
    "core::slice::copy_from_slice_impl::len_mismatch_fail",
    "std::process::abort",
    "core::cell::panic_already",
)


class Interp:
    MAXVISIT = 700

    def __init__(self, prog, order="major", frame_limit=64):
        self.p = prog
        self.B = BDD(order)
        self.types = prog.types
        self.usz = prog.ptr    # bits of usize on the target analysed
        self.g = {}            # immutable global cells (constants, symbolic pointees)
        self.gn = {}
        self.uid = 0
        self.events = []       # dicts
        self.depth = 0
        self.frame_limit = frame_limit
        self.stats = {"blocks": 0, "calls": 0, "fns": set()}
        self.stack = []
        self.frames = []
        self.dyn = {}          # (cell, path) behind a trait object -> (type, its methods)
        self.natives = {}
        self.next_left = None      # steps of the library's own iterators analysed before cutting
        self.horizon = None        # number of CPUID reads analysed before cutting
        self.opaque_local = None   # callable(path)->bool : do not inline
        self.api_hook = None       # models of the library's own functions (the report is analysed over its queries)
        self.foreign_hook = None   # models of functions of other crates
        self.read_terms = {}
        self.strlit = {}
        import natives
        natives.install(self)

    # ------------------------------------------------------------------ values
    def const_int(self, v, w):
        return ("b", self.B.const(v & ((1 << w) - 1), w))

    def width(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k in ("uint", "int"):
            return t["bits"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k == "pat":
            return self.width(t["of"])
        return None

    def sym(self, ty, name):
        t = self.types[ty]
        k = t["k"]
        if k in ("uint", "int"):
            return ("b", self.B.word(name, t["bits"]))
        if k == "bool":
            return ("b", (self.B.var(name, 0),))
        if k == "char":
            return ("b", self.B.word(name, 32))
        if k in ("tuple", "closure"):
            return ("s", tuple(self.sym(f, ("f", name, i)) for i, f in enumerate(t["f"])))
        if k == "array":
            if 0 <= t["len"] <= 256:
                return ("s", tuple(self.sym(t["of"], ("f", name, i)) for i in range(t["len"])))
            return ("o", name)
        if k == "adt":
            if t["path"] in ("core::fmt::Formatter", "core::fmt::Arguments"):
                return ("o", name)
            if t["kind"] == "struct":
                return (
                    "s",
                    tuple(self.sym(f[1], ("f", name, i)) for i, f in enumerate(t["v"][0]["f"])),
                )
            if t["kind"] == "enum":
                n = len(t["v"])
                if n == 0:
                    return ("o", name)
                nb = max(1, (n - 1).bit_length()) if n > 1 else 0
                w = self.B.word(("tag", name), nb)
                alts = []
                rest = 1
                for i, v in enumerate(t["v"]):
                    if i == n - 1:
                        g = rest
                    else:
                        g = self.B.eq(w, self.B.const(i, nb))
                        rest = self.B.AND(rest, self.B.NOT(g))
                    fs = tuple(self.sym(f[1], ("vf", name, i, j)) for j, f in enumerate(v["f"]))
                    alts.append((i, g, fs))
                return ("e", ty, tuple(alts))
            return ("o", name)
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            if to["k"] in ("str", "slice"):
                cell = self.gcell(("symslice", name), ("o", name))
                ln = self.B.word(("len", name), self.usz)
                return ("r", ((1, (cell, (), (self.B.const(0, self.usz), ln))),))
            cell = self.gcell(("symref", name), self.sym(t["to"], ("deref", name)))
            return ("r", ((1, (cell, (), None)),))
        return ("o", name)

    def gcell(self, key, val):
        c = self.gn.get(key)
        if c is None:
            c = ("g", len(self.gn))
            self.gn[key] = c
            self.g[c] = val
        return c

    def bytes_cell(self, bs):
        bs = tuple(bs)
        return self.gcell(("bytes", bs), ("s", bs))

    def mkstr(self, data):
        """&'static str / &[u8] constant"""
        bs = [self.const_int(x, 8) for x in data]
        cell = self.bytes_cell(bs)
        return ("r", ((1, (cell, (), (self.B.const(0, self.usz), self.B.const(len(bs), self.usz)))),))

    def konst(self, c, ty):
        if "int" in c:
            w = self.width(ty)
            if w is None:
                raise Unsupported("int const of type " + self.types[ty]["name"])
            return self.const_int(int(c["int"]), w)
        if "fn" in c:
            return ("fn", json.dumps(c["fn"], sort_keys=True))
        if "cl" in c:
            return self.closure_ptr(c["cl"])
        if "strb" in c:
            return self.mkstr(c["strb"])
        t = self.types[ty]
        if "ref" in c:
            to = t["to"]
            tt = self.types[to]
            if tt["k"] == "slice":
                v = ("s", tuple(self.konst(x, tt["of"]) for x in c["ref"]["agg"]))
                cell = self.gcell(("const", v), v)
                n = c["len"]
                return ("r", ((1, (cell, (), (self.B.const(0, self.usz), self.B.const(n, self.usz)))),))
            v = self.konst(c["ref"], to)
            cell = self.gcell(("const", v), v)
            return ("r", ((1, (cell, (), None)),))
        if "zst" in c:
            return self.zst(ty)
        if "agg" in c:
            if t["k"] == "array":
                return ("s", tuple(self.konst(x, t["of"]) for x in c["agg"]))
            if t["k"] == "tuple":
                return ("s", tuple(self.konst(x, f) for x, f in zip(c["agg"], t["f"])))
            if t["k"] == "adt":
                v = c["var"] if c["var"] >= 0 else 0
                fs = tuple(self.konst(x, f[1]) for x, f in zip(c["agg"], t["v"][v]["f"]))
                if t["kind"] == "struct":
                    return ("s", fs)
                return ("e", ty, ((v, 1, fs),))
        if "opaque" in c:
            return ("o", ("const", t["name"], json.dumps(c)))
        raise Unsupported("const %r" % (c,))

    def zst(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "tuple":
            return ("s", tuple(self.zst(f) for f in t["f"]))
        if k == "closure":
            return ("s", tuple(self.zst(f) for f in t["f"]))
        if k == "adt" and t["kind"] == "struct":
            return ("s", tuple(self.zst(f[1]) for f in t["v"][0]["f"]))
        if k == "adt" and t["kind"] == "enum" and len(t["v"]) == 1:
            return ("e", ty, ((0, 1, ()),))
        if k == "array":
            return ("s", ())
        if k == "fndef":
            return ("fn", json.dumps({"path": t["path"]}))
        return ("o", ("zst", t["name"]))

    # ------------------------------------------------------------------ join
    def mux(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        ka, kb = a[0], b[0]
        if ka == kb:
            if ka == "b":
                if len(a[1]) == len(b[1]):
                    if a[1] == b[1]:
                        return a
                    return ("b", self.B.mux(c, a[1], b[1]))
            elif ka == "s":
                if len(a[1]) == len(b[1]):
                    return ("s", tuple(self.mux(c, x, y) for x, y in zip(a[1], b[1])))
            elif ka == "e":
                if a[1] == b[1]:
                    if a == b:
                        return a
                    B = self.B
                    da = {v: (g, f) for v, g, f in a[2]}
                    db = {v: (g, f) for v, g, f in b[2]}
                    alts = []
                    for v in sorted(set(da) | set(db)):
                        ga, fa = da.get(v, (0, None))
                        gb, fb = db.get(v, (0, None))
                        g = B.ite(c, ga, gb)
                        if g == 0:
                            continue
                        if fa is None:
                            f = fb
                        elif fb is None:
                            f = fa
                        else:
                            f = tuple(self.mux(c, x, y) for x, y in zip(fa, fb))
                        alts.append((v, g, f))
                    return ("e", a[1], tuple(alts))
            elif ka == "r":
                if a == b:
                    return a
                B = self.B
                nc = B.NOT(c)
                acc = []
                for cc, v in ((c, a), (nc, b)):
                    for g, t in v[1]:
                        gg = B.AND(cc, g)
                        if gg == 0:
                            continue
                        for i, (g2, t2) in enumerate(acc):
                            if t2[0] == t[0] and t2[1] == t[1] and (t2[2] is None) == (t[2] is None):
                                m = t2[2]
                                if m is not None and m != t[2]:
                                    m = tuple(B.mux(gg, x, y) for x, y in zip(t[2], m))
                                acc[i] = (B.OR(g2, gg), (t[0], t[1], m))
                                break
                        else:
                            acc.append((gg, t))
                if len(acc) == 1:
                    acc = [(1, acc[0][1])]
                return ("r", tuple(acc))
            elif ka == "si":
                if a[1] == b[1] or a == b:
                    if a == b:
                        return a
                    return ("si", a[1], self.B.mux(c, a[2], b[2]), self.B.mux(c, a[3], b[3]))
            if a == b:
                return a
        return ("o", ("mux", c, a, b))

    def join(self, sts):
        """join of disjoint states; neighbours first, so that the selecting conditions stay local"""
        while len(sts) > 1:
            nxt = [self.join2(sts[k], sts[k + 1]) for k in range(0, len(sts) - 1, 2)]
            if len(sts) % 2:
                nxt.append(sts[-1])
            sts = nxt
        return sts[0]

    def join2(self, a, b):
        B = self.B
        pc = B.OR(a.pc, b.pc)
        if a.c is b.c:
            return St(a.c, pc)
        if b.pc == 0:
            return St(a.c, pc)
        if a.pc == 0:
            return St(b.c, pc)
        sel = B.restrict(b.pc, pc)
        out = dict(a.c)
        for k, v in b.c.items():
            o = out.get(k)
            if o is None:
                out[k] = v
            elif o is not v:
                out[k] = self.mux(sel, v, o)
        return St(out, pc)

    # ------------------------------------------------------------------ memory
    def cell(self, st, key):
        v = st.c.get(key)
        if v is None:
            v = self.g.get(key)
        return v

    def project(self, v, el, st):
        """read sub-value"""
        B = self.B
        if v is None:
            return None
        k = el[0]
        if k == "f":
            if v[0] == "s":
                if el[1] < len(v[1]):
                    return v[1][el[1]]
                raise Unsupported("field index")
            if v[0] == "o":
                if v[1][0] == "mux":
                    return self.mux(
                        v[1][1], self.project(v[1][2], el, st), self.project(v[1][3], el, st)
                    )
                if el[2] is None:
                    raise Unsupported("untyped field of opaque")
                return self.sym(el[2], ("fld", v[1], el[1]))
            if v[0] == "r" or v[0] == "si" and el[1] == 0:
                # newtype around a pointer (NonNull / Unique), or the position of a slice iterator
                return v
            if v[0] == "si" and el[1] == 1:
                return ("o", ("si_end", v))
            raise Unsupported("field of %s" % v[0])
        if k == "vf":
            if v[0] == "e":
                for a in v[2]:
                    if a[0] == el[1]:
                        return a[2][el[2]]
                return None
            if v[0] == "o":
                if v[1][0] == "mux":
                    return self.mux(
                        v[1][1], self.project(v[1][2], el, st), self.project(v[1][3], el, st)
                    )
                return self.sym(el[3], ("vfld", v[1], el[1], el[2]))
            if v[0] == "s":
                return v[1][el[2]]
            raise Unsupported("variant field of %s" % v[0])
        if k == "i":
            if v[0] == "s":
                arr = v[1]
                n = len(arr)
                if n == 0:
                    return None
                c = B.is_const(el[1])
                if c is not None:
                    return arr[c] if c < n else None
                r = arr[n - 1]
                for j in range(n - 2, -1, -1):
                    e = B.eq(el[1], B.const(j, len(el[1])))
                    if e != 0:
                        r = self.mux(e, arr[j], r)
                return r
            if v[0] == "o":
                return ("o", ("elem", v[1], el[1]))
            raise Unsupported("index of %s" % v[0])
        if k == "bv":  # byte view of a plain-data object
            bs = self.flatten(v)
            if bs is None:
                raise Unsupported("byte view")
            return ("s", tuple(("b", bs[i : i + 8]) for i in range(0, len(bs), 8)))
        if k == "off":
            return v
        if k == "sub":
            return ("s", tuple(self.project(v, ("i", B.add(el[1], B.const(j, len(el[1])))[0]), st) for j in range(el[2])))
        raise Unsupported("proj " + str(k))

    def flatten(self, v):
        """object representation as bits (little endian) of plain data without padding"""
        if v is None:
            return None
        if v[0] == "b":
            if len(v[1]) % 8:
                if len(v[1]) == 1:
                    return v[1] + (0,) * 7
                return None
            return v[1]
        if v[0] == "s":
            out = ()
            for x in v[1]:
                f = self.flatten(x)
                if f is None:
                    return None
                out += f
            return out
        return None

    def unflatten(self, bits, ty):
        t = self.types[ty]
        k = t["k"]
        w = self.width(ty)
        if w is not None:
            if k == "bool":
                return ("b", bits[:1]), bits[8:]
            return ("b", bits[:w]), bits[w:]
        if k == "array":
            out = []
            for _ in range(t["len"]):
                x, bits = self.unflatten(bits, t["of"])
                out.append(x)
            return ("s", tuple(out)), bits
        if k == "tuple":
            out = []
            for f in t["f"]:
                x, bits = self.unflatten(bits, f)
                out.append(x)
            return ("s", tuple(out)), bits
        if k == "adt" and t["kind"] == "struct":
            out = []
            for f in t["v"][0]["f"]:
                x, bits = self.unflatten(bits, f[1])
                out.append(x)
            return ("s", tuple(out)), bits
        raise Unsupported("unflatten " + t["name"])

    def update(self, v, path, new, st):
        if not path:
            return new
        el = path[0]
        k = el[0]
        B = self.B
        if k == "f":
            if v is None:
                n = el[1] + 1
                fs = [None] * n
            elif v[0] == "s":
                fs = list(v[1])
            elif v[0] == "o":
                raise Unsupported("store into opaque")
            else:
                raise Unsupported("store field of %s" % v[0])
            while len(fs) <= el[1]:
                fs.append(None)
            fs[el[1]] = self.update(fs[el[1]], path[1:], new, st)
            return ("s", tuple(fs))
        if k == "vf":
            if v is not None and v[0] == "e":
                alts = []
                for a in v[2]:
                    if a[0] == el[1]:
                        fs = list(a[2])
                        while len(fs) <= el[2]:
                            fs.append(None)
                        fs[el[2]] = self.update(fs[el[2]], path[1:], new, st)
                        alts.append((a[0], a[1], tuple(fs)))
                    else:
                        alts.append(a)
                return ("e", v[1], tuple(alts))
            raise Unsupported("variant store")
        if k == "i":
            if v is None or v[0] != "s":
                raise Unsupported("index store")
            arr = list(v[1])
            c = B.is_const(el[1])
            if c is not None:
                if c < len(arr):
                    arr[c] = self.update(arr[c], path[1:], new, st)
            else:
                for j in range(len(arr)):
                    e = B.eq(el[1], B.const(j, len(el[1])))
                    if e:
                        arr[j] = self.mux(e, self.update(arr[j], path[1:], new, st), arr[j])
            return ("s", tuple(arr))
        if k == "sub":
            x = self.update(self.project(v, el, st), path[1:], new, st)
            for j in range(el[2]):
                v = self.update(v, (("i", B.add(el[1], B.const(j, len(el[1])))[0]),), x[1][j], st)
            return v
        raise Unsupported("store via " + str(k))

    def load_target(self, st, t):
        v = self.cell(st, t[0])
        for el in t[1]:
            v = self.project(v, el, st)
        return v

    def load_ref(self, st, r):
        """value behind a (thin) reference"""
        if r is None:
            return None
        if r[0] == "o":
            return ("o", ("deref", r[1]))
        if r[0] == "s" and len(r[1]) >= 1:
            return self.load_ref(st, r[1][0])
        if r[0] != "r":
            raise Unsupported("deref of %s" % r[0])
        acc = None
        for g, t in r[1]:
            v = self.load_target(st, t)
            acc = v if acc is None else self.mux(g, v, acc)
        return acc

    def store_target(self, st, t, new, g=1):
        key = t[0]
        if key in self.g and key not in st.c:
            # symbolic pointee (root argument): copy-on-write into the state
            st.c[key] = self.g[key]
        old = st.c.get(key)
        nv = self.update(old, t[1], new, st)
        if g != 1:
            cur = old
            nv = self.mux(g, nv, cur)
        st.c[key] = nv

    def store_ref(self, st, r, new):
        if r[0] != "r":
            raise Unsupported("store through %s" % r[0])
        if len(r[1]) == 1:
            self.store_target(st, r[1][0][1], new)
        else:
            for g, t in r[1]:
                self.store_target(st, t, new, self.B.restrict(g, st.pc))

    # a resolved place is a list of (guard, target) ; target=(cell,path,meta)
    def place(self, st, fr, pl):
        local, projs = pl
        alts = [(1, ((fr, local), (), None))]
        down = None
        for e in projs:
            if e == "*":
                nalts = []
                for g, t in alts:
                    v = self.load_target(st, t)
                    if v is None:
                        raise Unsupported("deref of uninit")
                    while v[0] == "s" and len(v[1]) >= 1:
                        v = v[1][0]
                    if v[0] == "o":
                        c = self.gcell(("oref", v[1]), ("o", ("deref", v[1])))
                        nalts.append((g, (c, (), None)))
                        continue
                    if v[0] != "r":
                        raise Unsupported("deref of %s" % v[0])
                    for g2, t2 in v[1]:
                        gg = self.B.AND(g, g2)
                        if gg:
                            nalts.append((gg, t2))
                alts = nalts
                down = None
            elif e[0] == "d":
                down = e[1]
            elif e[0] == "f":
                if down is not None:
                    el = ("vf", down, e[1], e[2])
                    down = None
                else:
                    el = ("f", e[1], e[2])
                alts = [(g, (t[0], t[1] + (el,), None)) for g, t in alts]
            elif e[0] == "i":
                ix = self.cell(st, (fr, e[1]))
                if ix is None or ix[0] != "b":
                    raise Unsupported("index operand")
                alts = [(g, self.elem_target(t, ix[1])) for g, t in alts]
            elif e[0] == "ci":
                off, minlen, from_end = e[1], e[2], e[3]
                out = []
                for g, t in alts:
                    if from_end:
                        ln = self.target_len(st, t)
                        ix, _ = self.B.sub(ln, self.B.const(off, self.usz))
                    else:
                        ix = self.B.const(off, self.usz)
                    out.append((g, self.elem_target(t, ix)))
                alts = out
            elif e[0] == "ss":
                fr_, to, from_end = e[1], e[2], e[3]
                out = []
                for g, t in alts:
                    ln = self.target_len(st, t)
                    base = t[2][0] if t[2] is not None else self.B.const(0, self.usz)
                    s, _ = self.B.add(base, self.B.const(fr_, self.usz))
                    if from_end:
                        n, _ = self.B.sub(ln, self.B.const(fr_ + to, self.usz))
                    else:
                        n = self.B.const(to - fr_, self.usz)
                    out.append((g, (t[0], t[1], (s, n))))
                alts = out
            else:
                raise Unsupported("projection %r" % (e,))
        return alts

    def elem_at(self, t, j):
        """the target `j` elements after the element a thin pointer designates"""
        if t[2] is not None:
            raise Unsupported("copy through a wide pointer")
        if t[1] and t[1][-1][0] == "i":
            ix = t[1][-1][1]
            return (t[0], t[1][:-1] + (("i", self.B.add(ix, self.B.const(j, len(ix)))[0]),), None)
        if j:
            raise Unsupported("copy of several elements through a pointer to one")
        return t

    def copy_elems(self, st, src, dst, count):
        n = self.B.is_const(count[1]) if count and count[0] == "b" else None
        if n is None or n > 4096 or not src or not dst or src[0] != "r" or dst[0] != "r":
            raise Unsupported("copy of an unknown number of elements")
        for j in range(n):
            acc = None
            for g, t in src[1]:
                v = self.load_target(st, self.elem_at(t, j))
                acc = v if acc is None else self.mux(g, v, acc)
            self.store_ref(st, ("r", tuple((g, self.elem_at(t, j)) for g, t in dst[1])), acc)

    def elem_target(self, t, ix):
        if t[2] is not None:
            c0 = self.B.is_const(t[2][0])
            if c0 != 0:
                ix, _ = self.B.add(t[2][0], ix)
        return (t[0], t[1] + (("i", ix),), None)

    def target_len(self, st, t):
        if t[2] is not None:
            return t[2][1]
        v = self.load_target(st, t)
        if v is not None and v[0] == "s":
            return self.B.const(len(v[1]), self.usz)
        raise Unsupported("length of non-array")

    def read_place(self, st, fr, pl):
        if not pl[1]:
            return self.cell(st, (fr, pl[0]))
        alts = self.place(st, fr, pl)
        acc = None
        for g, t in alts:
            if t[2] is not None:
                v = self.slice_value(st, t)
            else:
                v = self.load_target(st, t)
            acc = v if acc is None else self.mux(g, v, acc)
        return acc

    def slice_value(self, st, t):
        v = self.load_target(st, (t[0], t[1], None))
        s, n = self.B.is_const(t[2][0]), self.B.is_const(t[2][1])
        if v is None or v[0] != "s" or s is None or n is None:
            raise Unsupported("symbolic slice value")
        return ("s", v[1][s : s + n])

    def load_ref_slice(self, st, r):
        """elements of a &[T] value with one constant-length target"""
        if r[0] != "r" or len(r[1]) != 1:
            raise Unsupported("symbolic slice reference")
        return self.slice_value(st, r[1][0][1])[1]

    def write_place(self, st, fr, pl, val):
        if not pl[1]:
            st.c[(fr, pl[0])] = val
            return
        alts = self.place(st, fr, pl)
        if len(alts) == 1:
            self.store_target(st, alts[0][1], val)
        else:
            for g, t in alts:
                self.store_target(st, t, val, g)

    def operand(self, st, fr, o):
        if "p" in o:
            return self.read_place(st, fr, o["p"])
        if "c" in o:
            k = o.get("_k")
            if k is not None and k[0] is self:
                return k[1]
            v = self.konst(o["c"], o["t"])
            o["_k"] = (self, v)
            return v
        if "rtc" in o:
            return b1(0)
        raise Unsupported("operand")

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        B = self.B
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "reborrow", "rawptr"):
            alts = self.place(st, fr, rv[1])
            return ("r", tuple(alts))
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, rv[4])
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == "cast":
            return self.cast(st, fr, rv[1])
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            return self.discr(v, rv[2])
        if k == "agg":
            vals = tuple(self.operand(st, fr, o) for o in rv[5])
            kind = rv[1]
            if kind in ("array", "tuple", "closure"):
                return ("s", vals)
            if kind == "adt":
                t = self.types[rv[2]]
                if t["kind"] == "struct":
                    if t["path"] in ("core::slice::Iter", "core::slice::IterMut"):
                        return self.slice_iter(vals)
                    return ("s", vals)
                if t["kind"] == "enum":
                    return ("e", rv[2], ((rv[3], 1, vals),))
                return ("s", tuple(vals[0] if i == rv[4] else None for i in range(rv[4] + 1)))
            if kind == "rawptr":
                return self.mk_rawptr(st, vals)
            raise Unsupported("aggregate " + kind)
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            if rv[2] < 0 or rv[2] > 4096:
                raise Unsupported("repeat")
            return ("s", (v,) * rv[2])
        raise Unsupported("rvalue %s" % k)

    def slice_iter(self, vals):
        """a slice iterator put together from its two ends"""
        a, b = vals[0], vals[1]
        if a is not None and a[0] == "si":
            if b == ("o", ("si_end", a)):
                return a
            raise Unsupported("slice iterator from the ends of two")
        while a is not None and a[0] == "s" and a[1]:
            a = a[1][0]
        while b is not None and b[0] == "s" and b[1]:
            b = b[1][0]
        if a and b and a[0] == b[0] == "r" and len(a[1]) == len(b[1]) == 1:
            p, q = a[1][0][1], b[1][0][1]
            if p[1] and q[1] and p[0] == q[0] and p[1][:-1] == q[1][:-1] and p[1][-1][0] == q[1][-1][0] == "i" and p[2] is None and q[2] is None:
                r = ("r", ((1, (p[0], p[1][:-1], None)),))
                return ("si", r, p[1][-1][1], q[1][-1][1])
        raise Unsupported("slice iterator from two pointers")

    def mk_rawptr(self, st, vals):
        p, m = vals
        if m[0] == "s" and not m[1]:
            return p
        if m[0] == "b" and p[0] == "r":
            out = []
            for g, t in p[1]:
                out.append((g, self.slice_from_elem(t, m[1])))
            return ("r", tuple(out))
        raise Unsupported("raw pointer aggregate")

    def slice_from_elem(self, t, ln):
        """pointer to element -> slice of `ln` elements starting there"""
        B = self.B
        if t[2] is not None:
            return (t[0], t[1], (t[2][0], ln))
        if t[1] and t[1][-1][0] == "i":
            return (t[0], t[1][:-1], (t[1][-1][1], ln))
        return (t[0], t[1], (B.const(0, self.usz), ln))

    def discr(self, v, ty):
        t = self.types[ty]
        if t["k"] != "adt" or t["kind"] != "enum":
            return self.const_int(0, 8) if False else self.const_int(0, self.usz)
        w = self.width(t["dty"])
        if v is None:
            live = [i for i, x in enumerate(t["v"]) if not any(self.empty_type(y[1]) for y in x["f"])]
            if len(live) == 1 and len(t["v"]) > 1:
                return self.const_int(int(t["v"][live[0]]["d"]) & ((1 << w) - 1), w)
            raise Unsupported("discriminant of uninit")
        if v[0] == "o":
            if v[1][0] == "mux":
                return self.mux(v[1][1], self.discr(v[1][2], ty), self.discr(v[1][3], ty))
            v = self.sym(ty, v[1])
        if v[0] == "ord":
            v = ("e", ty, tuple((i, g, ()) for i, g in enumerate(v[1:]) if g))
        if v[0] != "e":
            raise Unsupported("discriminant of %s" % v[0])
        acc = None
        for vi, g, _ in v[2]:
            d = self.B.const(int(t["v"][vi]["d"]) & ((1 << w) - 1), w)
            acc = d if acc is None else self.B.mux(g, d, acc)
        return ("b", acc)

    def empty_type(self, ty):
        t = self.types[ty]
        return t["k"] == "never" or (t["k"] == "adt" and t["kind"] == "enum" and not t["v"])

    def signed(self, ty):
        return self.types[ty]["k"] == "int"

    def binop(self, st, op, a, b, ty):
        B = self.B
        if a is None or b is None:
            raise Unsupported("binop on uninit")
        if op == "Offset":
            return self.ptr_offset(a, b)
        if a[0] in ("r", "o", "s", "fn") or b[0] in ("r", "o", "s", "fn"):
            if op in ("Eq", "Ne") and a[0] == "r" and b[0] == "r":
                return self.ptr_eq(a, b, op)
            t = ("o", ("bin", op, a, b))
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return b1(B.var(("cmp", op, a, b), 0))
            raise Unsupported("binop %s on %s,%s" % (op, a[0], b[0]))
        x, y = a[1], b[1]
        w = len(x)
        sg = self.signed(ty)
        if op in ("Add", "AddUnchecked"):
            return ("b", self.arith("add", x, y)[0])
        if op in ("Sub", "SubUnchecked"):
            return ("b", self.arith("sub", x, y)[0])
        if op in ("AddWithOverflow", "SubWithOverflow"):
            r, c = self.arith("add" if op[0] == "A" else "sub", x, y)
            if sg:
                sx, sy, sr = x[-1], y[-1], r[-1]
                if op[0] == "A":
                    c = B.AND(B.IFF(sx, sy), B.XOR(sx, sr))
                else:
                    c = B.AND(B.XOR(sx, sy), B.XOR(sx, sr))
            return ("s", (("b", r), b1(c)))
        if op in ("Mul", "MulUnchecked"):
            return ("b", self.mul(x, y, sg)[0])
        if op == "MulWithOverflow":
            r, c = self.mul(x, y, sg)
            return ("s", (("b", r), b1(c)))
        if op in ("Div", "Rem"):
            return ("b", self.divrem(op, x, y, sg))
        if op == "BitAnd":
            return ("b", tuple(B.AND(p, q) for p, q in zip(x, y)))
        if op == "BitOr":
            return ("b", tuple(B.OR(p, q) for p, q in zip(x, y)))
        if op == "BitXor":
            return ("b", tuple(B.XOR(p, q) for p, q in zip(x, y)))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            return ("b", self.shift(op.startswith("Shl"), x, y, sg))
        if op == "Eq":
            return b1(B.eq(x, y))
        if op == "Ne":
            return b1(B.NOT(B.eq(x, y)))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if sg:
                x = x[:-1] + (B.NOT(x[-1]),)
                y = y[:-1] + (B.NOT(y[-1]),)
            if op == "Lt":
                return b1(B.ult(x, y))
            if op == "Gt":
                return b1(B.ult(y, x))
            if op == "Le":
                return b1(B.NOT(B.ult(y, x)))
            return b1(B.NOT(B.ult(x, y)))
        if op == "Cmp":
            if sg:
                x = x[:-1] + (B.NOT(x[-1]),)
                y = y[:-1] + (B.NOT(y[-1]),)
            lt, gt = B.ult(x, y), B.ult(y, x)
            eq = B.AND(B.NOT(lt), B.NOT(gt))
            return ("ord", lt, eq, gt)
        raise Unsupported("binop " + op)

    def arith(self, op, x, y):
        return self.B.add(x, y) if op == "add" else self.B.sub(x, y)

    def shift(self, left, x, y, sg):
        B = self.B
        w = len(x)
        nb = (w - 1).bit_length()
        fill = x[-1] if (sg and not left) else 0
        r = x
        for i in range(min(nb, len(y))):
            s = 1 << i
            if y[i] == 0:
                continue
            if left:
                sh = (0,) * s + r[: w - s] if s < w else (0,) * w
            else:
                sh = r[s:] + (fill,) * s if s < w else (fill,) * w
            r = B.mux(y[i], sh, r)
        return r

    def mul(self, x, y, sg):
        """returns (low w bits, overflow flag)"""
        B = self.B
        w = len(x)
        cx, cy = B.is_const(x), B.is_const(y)
        if cx is not None and cy is not None:
            if sg:
                sx = cx - (1 << w) if cx >> (w - 1) else cx
                sy = cy - (1 << w) if cy >> (w - 1) else cy
                p = sx * sy
                return B.const(p & ((1 << w) - 1), w), int(not (-(1 << (w - 1)) <= p < (1 << (w - 1))))
            p = cx * cy
            return B.const(p & ((1 << w) - 1), w), int(p >> w != 0)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None and not sg:
            if cy == 0:
                return B.const(0, w), 0
            if cy & (cy - 1) == 0:
                s = cy.bit_length() - 1
                r = (0,) * s + x[: w - s]
                ov = 0
                for bit in x[w - s :]:
                    ov = B.OR(ov, bit)
                return r, ov
        # sign handling: only when both provably non-negative
        if sg and (x[-1] != 0 or y[-1] != 0):
            return B.word(("smul", x, y), w), B.var(("smulov", x, y), 0)
        # exact product when the operands carry few bits, uninterpreted otherwise
        k = ("umul",) + tuple(sorted((strip0(x), strip0(y))))
        mx, my = B.maxval(x), B.maxval(y)
        live = sum(1 for t in x if t > 1) + sum(1 for t in y if t > 1)
        if live <= 12:
            W = 2 * w
            acc = (0,) * W
            xx = x + (0,) * w
            for i, q in enumerate(y):
                if q == 0:
                    continue
                sh = (0,) * i + xx[: W - i]
                acc, _ = B.add(acc, tuple(B.AND(q, t) for t in sh))
            ov = 0
            for t in acc[w:]:
                ov = B.OR(ov, t)
            if sg:
                ov = B.OR(ov, acc[w - 1])
            return acc[:w], ov
        lim = mx * my
        bits = []
        for i in range(w):
            bits.append(B.var(k, i) if (lim >> i) else 0)
        lw = w - 1 if sg else w
        ov = 0
        for i in range(lw, lim.bit_length()):
            ov = B.OR(ov, B.var(k, i))
        # trailing zeros are preserved
        tz = 0
        for t in x:
            if t != 0:
                break
            tz += 1
        for t in y:
            if t != 0:
                break
            tz += 1
        for i in range(min(tz, w)):
            bits[i] = 0
        # a zero operand gives zero
        zx = B.eq(x, B.const(0, w))
        zy = B.eq(y, B.const(0, w))
        nz = B.AND(B.NOT(zx), B.NOT(zy))
        bits = [B.AND(nz, t) for t in bits]
        return tuple(bits), B.AND(nz, ov)

    def divrem(self, op, x, y, sg):
        B = self.B
        w = len(x)
        cx, cy = B.is_const(x), B.is_const(y)
        if sg and (x[-1] != 0 or y[-1] != 0):
            return B.word(("s" + op, x, y), w)
        if cx is not None and cy:
            return B.const(cx // cy if op == "Div" else cx % cy, w)
        if cy and cy & (cy - 1) == 0:
            s = cy.bit_length() - 1
            if op == "Div":
                return x[s:] + (0,) * s
            return x[:s] + (0,) * (w - s)
        live = sum(1 for t in x if t > 1)
        if cy and live <= 16:
            # restoring division by a constant, bit by bit
            q = [0] * w
            r = (0,) * w
            yy = B.const(cy, w)
            for i in range(w - 1, -1, -1):
                r = (x[i],) + r[: w - 1]
                ge = B.NOT(B.ult(r, yy))
                d, _ = B.sub(r, yy)
                r = B.mux(ge, d, r)
                q[i] = ge
            return tuple(q) if op == "Div" else r
        mx = B.maxval(x)
        k = ("u" + op, strip0(x), strip0(y))
        return tuple(B.var(k, i) if mx >> i else 0 for i in range(w))

    def ptr_offset(self, a, b):
        if a[0] == "si":
            a = ("r", tuple((g, self.elem_target(t, a[2])) for g, t in a[1][1]))
        if a[0] != "r":
            raise Unsupported("offset of %s" % a[0])
        out = []
        for g, t in a[1]:
            if t[1] and t[1][-1][0] == "i":
                ix, _ = self.B.add(t[1][-1][1], b[1])
                out.append((g, (t[0], t[1][:-1] + (("i", ix),), t[2])))
            elif self.B.is_const(b[1]) == 0:
                out.append((g, t))
            else:
                raise Unsupported("pointer offset")
        return ("r", tuple(out))

    def ptr_eq(self, a, b, op):
        if len(a[1]) == 1 and len(b[1]) == 1:
            ta, tb = a[1][0][1], b[1][0][1]
            if ta == tb:
                r = 1
            elif (
                ta[0] == tb[0]
                and ta[1]
                and tb[1]
                and ta[1][:-1] == tb[1][:-1]
                and ta[1][-1][0] == "i"
                and tb[1][-1][0] == "i"
            ):
                r = self.B.eq(ta[1][-1][1], tb[1][-1][1])
            else:
                r = self.B.var(("ptreq", a, b), 0)
            return b1(r if op == "Eq" else self.B.NOT(r))
        return b1(self.B.var(("ptreq", op, a, b), 0))

    def unop(self, st, op, a, ty):
        B = self.B
        if op == "Not":
            return ("b", tuple(B.NOT(x) for x in a[1]))
        if op == "Neg":
            r, _ = B.sub(B.const(0, len(a[1])), a[1])
            return ("b", r)
        if op == "PtrMetadata":
            if a[0] == "r":
                acc = None
                for g, t in a[1]:
                    if t[2] is None:
                        ty_ = self.types[ty]
                        to = self.types[ty_["to"]] if "to" in ty_ else None
                        if to and to["k"] == "array":
                            v = B.const(to["len"], self.usz)
                        else:
                            return UNIT
                    else:
                        v = t[2][1]
                    acc = v if acc is None else B.mux(g, v, acc)
                return ("b", acc)
            if a[0] == "o":
                return ("b", B.word(("len", a[1]), self.usz))
        raise Unsupported("unop %s" % op)

    def resize(self, x, w, sg):
        if len(x) >= w:
            return x[:w]
        return x + ((x[-1] if sg else 0),) * (w - len(x))

    def cast(self, st, fr, c):
        v = self.operand(st, fr, c["o"])
        k = c["k"]
        frm, to = self.types[c["from"]], self.types[c["to"]]
        if v is None:
            raise Unsupported("cast of uninit")
        if k == "IntToInt":
            if v[0] == "e":
                v = self.discr(v, c["from"])
                sg = self.signed(frm["dty"])
            else:
                sg = frm["k"] == "int"
            if v[0] != "b":
                raise Unsupported("int cast of %s" % v[0])
            return ("b", self.resize(v[1], self.width(c["to"]), sg))
        if k == "PointerCoercion":
            pc = c.get("pc", "")
            if "Unsize" in pc:
                if "dyn" in c and v[0] == "r":
                    for g, t in v[1]:
                        known = self.dyn.get((t[0], t[1]))
                        vt = {k: fn for k, fn in c["vt"]}
                        if known is None:
                            self.dyn[(t[0], t[1])] = (c["dyn"], vt)
                        elif known[0] != c["dyn"]:
                            self.dyn[(t[0], t[1])] = (None, {})
                        else:
                            known[1].update(vt)
                    return v
                return self.unsize(st, v, frm, to)
            if "cl" in c:
                return self.closure_ptr(c["cl"])
            return v
        if k in ("PtrToPtr", "FnPtrToPtr"):
            return self.ptr_cast(st, v, frm, to)
        if k == "Transmute":
            return self.transmute(st, v, c["from"], c["to"])
        if k == "BoxDerefTransmute":
            while v is not None and v[0] == "s" and v[1]:
                v = v[1][0]
            if v is None or v[0] != "r":
                raise Unsupported("box")
            return v
        if k == "PointerWithExposedProvenance" and v[0] == "b":
            return ("o", ("addr", v[1]))  # a number shown as a pointer; never dereferenced
        raise Unsupported("cast " + k)

    def dyn_type(self, v):
        """the type behind a reference to a trait object"""
        got = {self.dyn.get((t[0], t[1]), (None,))[0] for g, t in v[1]} if v is not None and v[0] == "r" else {None}
        return got.pop() if len(got) == 1 else None

    def call_dyn(self, fn, args, aty, dty, st, ln, f):
        me = args[0]
        fns = []
        for g, t in me[1]:
            e = self.dyn.get((t[0], t[1]))
            m = e and e[1].get(fn["path"])
            if not m or "i" not in m and "rpath" not in m:
                return NotImplemented
            fns.append((g, m, ("r", ((1, t),))))
        outs = []
        for g, m, r in fns:
            pc = self.B.AND(st.pc, g)
            if not pc:
                continue
            s = St(dict(st.c), pc)
            v = self.apply(m, [r] + list(args[1:]), aty, dty, s, ln, f)
            if s.pc:
                s.c[("ret", 0)] = v
                outs.append(s)
        if not outs:
            st.pc = 0
            return None
        j = self.join(outs)
        v = j.c.pop(("ret", 0))
        st.c, st.pc = dict(j.c), j.pc
        return v

    def unsize(self, st, v, frm, to):
        ft = self.types[frm["to"]] if "to" in frm else None
        tt = self.types[to["to"]] if "to" in to else None
        if ft and tt and ft["k"] == "array" and tt["k"] == "slice" and v[0] == "r":
            return (
                "r",
                tuple(
                    (g, (t[0], t[1], (self.B.const(0, self.usz), self.B.const(ft["len"], self.usz))))
                    for g, t in v[1]
                ),
            )
        return v

    def plain_size(self, ty):
        """size in bytes of a type whose representation is fixed and has no padding; None otherwise"""
        t = self.types[ty]
        k = t["k"]
        if k in ("uint", "int"):
            return t["bits"] // 8
        if k in ("bool",):
            return 1
        if k == "array":
            n = self.plain_size(t["of"])
            return None if n is None else n * t["len"]
        if k == "slice":
            return self.plain_size(t["of"])
        if k == "str":
            return 1
        if k == "adt" and t["kind"] == "struct" and (t["reprc"] or t["transp"]):
            n = 0
            for f in t["v"][0]["f"]:
                x = self.plain_size(f[1])
                if x is None:
                    return None
                n += x
            return n if n == t.get("size", n) else None
        return None

    def ptr_cast(self, st, v, frm, to):
        if v[0] != "r":
            return v
        ft, tt = self.types[frm["to"]], self.types[to["to"]]
        if frm["to"] == to["to"] or tt["k"] == "param":
            return v
        if tt["k"] in ("slice", "str") and ft["k"] in ("slice", "str"):
            return v
        if tt["k"] == "uint" and tt["bits"] == 8:
            # byte view of plain data
            out = []
            for g, t in v[1]:
                if ft["k"] == "slice" and t[2] is not None:
                    return ("r", tuple((g, (t[0], t[1] + (("i", t[2][0]),), None)) for g, t in v[1]))
                if ft["k"] == "array" and self.types[ft["of"]] == tt:
                    out.append((g, (t[0], t[1] + (("i", self.B.const(0, self.usz)),), None)))
                    continue
                if ft["k"] != "param" and self.plain_size(frm["to"]) is None:
                    raise Unsupported("byte view of %s, whose layout is not fixed or has padding" % ft["name"])
                p = t[1]
                if p and p[-1][0] == "i" and self.B.is_const(p[-1][1]) == 0:
                    p = p[:-1]  # pointer to first element: view the whole array
                out.append((g, (t[0], p + (("bv",), ("i", self.B.const(0, self.usz))), None)))
            return ("r", tuple(out))
        if ft["k"] == "array" and self.types[ft["of"]] == tt:
            return ("r", tuple((g, (t[0], t[1] + (("i", self.B.const(0, self.usz)),), None)) for g, t in v[1]))
        if ft["k"] == "slice" and self.types[ft["of"]] == tt:
            return ("r", tuple((g, (t[0], t[1] + (("i", t[2][0]),), None)) for g, t in v[1]))
        if ft["k"] == "param" or ft == tt or tt["name"] == "()":
            return v
        if tt["k"] == "array" and ft["k"] == "slice" and tt["of"] == ft["of"]:
            if any(t[2] is None for g, t in v[1]):
                raise Unsupported("array pointer cast")
            return ("r", tuple((g, (t[0], t[1] + (("sub", t[2][0], tt["len"]),), None)) for g, t in v[1]))
        if tt["k"] == "array" and self.types[tt["of"]] == ft:
            # *const T -> *const [T; N]
            n = tt["len"]
            out = []
            for g, t in v[1]:
                if t[1] and t[1][-1][0] == "i":
                    out.append((g, (t[0], t[1][:-1] + (("sub", t[1][-1][1], n),), None)))
                else:
                    raise Unsupported("array pointer cast")
            return ("r", tuple(out))
        raise Unsupported("pointer cast %s -> %s" % (frm["name"], to["name"]))

    def transmute(self, st, v, fty, tty):
        if fty == tty:
            return v
        frm, to = self.types[fty], self.types[tty]
        pk = ("ref", "ptr")

        def inner_ptr(x):
            while x[0] == "s" and len(x[1]) >= 1:
                x = x[1][0]
            return x

        if to["k"] in pk:
            return inner_ptr(v)
        if v[0] == "r" and to["k"] == "adt":
            return self.wrap(v, tty)
        if v[0] == "r" and to["k"] == "uint" and self.api_hook is not None and all(not t[1] and t[2] is None for g, t in v[1]):
            return ("b", self.B.const(4096, self.width(tty)))  # where a whole value lives: aligned, and not null
        if v[0] == "e" and frm.get("path", "").endswith("option::Option") and to["k"] in ("uint", "int"):
            # Option<NonZero..>: zero is None
            w = self.width(tty)
            acc = self.B.const(0, w)
            for i, g, fs in v[2]:
                if fs:
                    x = self.flatten(fs[0])
                    if x is None or len(x) != w:
                        raise Unsupported("transmute %s -> %s" % (frm["name"], to["name"]))
                    acc = self.B.mux(g, x, acc)
            return ("b", acc)
        if v[0] == "e" and to["k"] in ("uint", "int"):
            if any(fs for _, _, fs in v[2]):
                raise Unsupported("transmute %s -> %s" % (frm["name"], to["name"]))
            d = self.discr(v, fty)
            return ("b", self.resize(d[1], self.width(tty), False))
        if to["k"] == "adt" and to["path"].endswith("option::Option") and v[0] == "b":
            pay = [x["f"][0][1] for x in to["v"] if x["f"]][0]
            if "NonZero" not in self.types[pay].get("path", ""):
                raise Unsupported("transmute %s -> %s" % (frm["name"], to["name"]))
            z = self.B.eq(v[1], self.B.const(0, len(v[1])))
            x, _ = self.unflatten(v[1], pay)
            return ("e", tty, tuple(a for a in ((0, z, ()), (1, self.B.NOT(z), (x,))) if a[1]))
        if to["k"] == "adt" and to["kind"] == "enum" and v[0] == "b":
            if any(x["f"] for x in to["v"]):
                raise Unsupported("transmute %s -> %s" % (frm["name"], to["name"]))
            # valid discriminants only
            alts = []
            for i, vv in enumerate(to["v"]):
                w = len(v[1])
                g = self.B.eq(v[1], self.B.const(int(vv["d"]) & ((1 << w) - 1), w))
                if g:
                    alts.append((i, g, ()))
            return ("e", tty, tuple(alts))
        if frm["k"] == "array" and to["k"] == "array" and v[0] == "s" and len(v[1]) == to["len"] and frm["len"] == to["len"]:
            a, b = self.types[frm["of"]], self.types[to["of"]]
            if a.get("kind") == "union" or b.get("kind") == "union":
                return ("s", tuple(self.transmute(st, x, frm["of"], to["of"]) for x in v[1]))
        if frm.get("kind") == "union" and frm["path"].endswith("MaybeUninit"):
            while v is not None and v[0] == "s" and any(x is not None for x in v[1]):
                v = [x for x in v[1] if x is not None][-1]
            return v
        bits = self.flatten(v)
        if bits is not None:
            r, rest = self.unflatten(bits, tty)
            return r
        if v[0] == "s" and to["k"] == "adt" and to["kind"] == "struct":
            return v
        raise Unsupported("transmute %s -> %s" % (frm["name"], to["name"]))

    def wrap(self, v, ty):
        t = self.types[ty]
        if t["k"] in ("ref", "ptr"):
            return v
        if t["k"] == "pat":
            return self.wrap(v, t["of"])
        if t["k"] == "adt" and t["kind"] == "struct":
            fs = []
            done = False
            for f in t["v"][0]["f"]:
                if not done:
                    fs.append(self.wrap(v, f[1]))
                    done = True
                else:
                    fs.append(self.zst(f[1]))
            return ("s", tuple(fs))
        if t["k"] == "adt" and t["kind"] == "enum" and t["path"].endswith("Option"):
            return ("e", ty, ((1, 1, (v,)),))
        raise Unsupported("wrap pointer in " + t["name"])

    # ------------------------------------------------------------------ control
    def event(self, **kw):
        kw["stack"] = tuple(self.stack)
        self.events.append(kw)

    def run_fn(self, i, args, st):
        """Analyse instance i on abstract args; returns value; st updated in place (or pc=0)."""
        f = self.p.fns[i]
        if "blocks" not in f:
            raise Unsupported("no body: " + f["path"])
        if self.depth > self.frame_limit:
            raise NoBound("call depth bound exceeded in " + f["path"])
        self.stats["calls"] += 1
        if f["local"]:
            self.stats["fns"].add(i)
        self.uid += 1
        fr = self.uid
        argc = f["argc"]
        if len(args) != argc:
            if True:
                raise Unsupported("arity of %s: %d vs %d" % (f["path"], len(args), argc))
        cells = dict(st.c)
        for n, a in enumerate(args):
            cells[(fr, n + 1)] = a
        blocks = f["blocks"]
        order, heads, tails, single = self.p.wto(i)
        live = self.p.live(i)
        pend = {0: [St(cells, st.pc)]}
        heap = [(order[0], 0)]
        visits = {}
        rets = []
        self.depth += 1
        self.stack.append(i)
        self.frames.append(fr)
        try:
            while heap:
                _, bi = heapq.heappop(heap)
                if bi in heads and heap:
                    # a loop is re-entered only when the whole previous iteration has arrived
                    held = []
                    while bi in heads and any(x in heads[bi] for x in pend):
                        held.append((order[bi], bi))
                        _, bi = heapq.heappop(heap)
                    for x in held:
                        heapq.heappush(heap, x)
                ss = pend.pop(bi, None)
                if not ss:
                    continue
                if len(ss) > 1:
                    keep = live[bi]
                    ss = [St({k: v for k, v in s.c.items() if k[0] != fr or k[1] in keep}, s.pc) for s in ss]
                cur = self.join(ss)
                if cur.pc == 0:
                    continue
                n = visits.get(bi, 0) + 1
                visits[bi] = n
                if bi in heads:
                    for x in heads[bi]:
                        visits.pop(x, None)
                if n > self.MAXVISIT:
                    raise NoBound("no static iteration bound for a loop in " + f["path"])
                self.stats["blocks"] += 1
                cur = St(dict(cur.c), cur.pc)
                todo = [(bi, cur)]
                while todo:
                    x, cur = todo.pop()
                    outs = None
                    if x in tails:
                        outs = self.tail(cur, fr, blocks[x], f, argc)
                    if outs is None:
                        outs = self.block(cur, fr, blocks[x], f, rets)
                    for to, s in outs:
                        if s.pc == 0:
                            continue
                        if to in single:
                            # reached along one edge only: nothing to join, continue straight away
                            self.stats["blocks"] += 1
                            todo.append((to, St(dict(s.c), s.pc)))
                        elif to in pend:
                            pend[to].append(s)
                        else:
                            pend[to] = [s]
                            heapq.heappush(heap, (order[to], to))
        finally:
            self.depth -= 1
            self.stack.pop()
            self.frames.pop()
        if not rets:
            st.pc = 0
            return None
        rets = [St({k: v for k, v in s.c.items() if k[0] != fr or k[1] == 0}, s.pc) for s in rets]
        out = self.join(rets)
        rv = out.c.get((fr, 0))
        if rv is None:
            rv = UNIT
        st.c = {k: v for k, v in out.c.items() if k[0] != fr}
        st.pc = out.pc
        return rv

    def tail(self, st, fr, blk, f, argc):
        """self-recursive tail call: continue at the entry with the new arguments (joined there)"""
        s = St(dict(st.c), st.pc)
        keep = len(self.events)
        for x in blk["s"]:
            if x[0] == "=":
                self.write_place(s, fr, x[1], self.rvalue(s, fr, x[2]))
            elif x[0] == "sd":
                self.set_discr(s, fr, x)
        args = [self.operand(s, fr, a) for a in blk["t"]["a"]]
        if len(args) != argc or any(self.mentions(a, fr) for a in args):
            del self.events[keep:]
            return None
        c = {k: v for k, v in s.c.items() if k[0] != fr}
        if any(self.mentions(v, fr) for v in c.values()):
            del self.events[keep:]
            return None
        for n, a in enumerate(args):
            c[(fr, n + 1)] = a
        s.c = c
        return [(0, s)]

    def mentions(self, v, fr):
        """does a value hold a reference into frame fr?"""
        if not isinstance(v, tuple) or not v:
            return False
        k = v[0]
        if k == "b":
            return False
        if k == "r":
            return any(t[0][0] == fr for g, t in v[1])
        if k == "s":
            return any(self.mentions(x, fr) for x in v[1])
        if k == "e":
            return any(self.mentions(x, fr) for a, g, fs in v[2] for x in fs)
        if k == "fn":
            return False
        return self.raw_mention(v, fr)

    def raw_mention(self, v, fr):
        if not isinstance(v, tuple):
            return False
        if len(v) == 2 and v[0] == fr and isinstance(v[1], int):
            return True
        return any(self.raw_mention(x, fr) for x in v)

    def block(self, st, fr, blk, f, rets):
        B = self.B
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                self.write_place(st, fr, s[1], v)
            elif s[0] == "sd":
                self.set_discr(st, fr, s)
            elif s[0] == "copy":
                self.copy_elems(st, *(self.operand(st, fr, o) for o in s[1:4]))
            elif s[0] != "assume":
                raise Unsupported("statement " + str(s[0]))
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "switch":
            d = self.operand(st, fr, t["d"])
            if d is None:
                raise Unsupported("switch on uninit in " + f["path"])
            if d[0] != "b":
                d = self.sym(t["t"], ("switch", d))
            outs = []
            rest = st.pc
            w = len(d[1])
            byt = {}
            for v, to in t["ts"]:
                g = B.eq(d[1], B.const(int(v) & ((1 << w) - 1), w))
                pc = B.AND(rest, g)
                if pc:
                    byt[to] = B.OR(byt.get(to, 0), pc)
                    rest = B.AND(rest, B.NOT(g))
                if rest == 0:
                    break
            if rest:
                byt[t["else"]] = B.OR(byt.get(t["else"], 0), rest)
            first = True
            for to, pc in byt.items():
                outs.append((to, St(st.c if first else dict(st.c), pc)))
                first = False
            return outs
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            ok = c[1][0] if t["exp"] else B.NOT(c[1][0])
            bad = B.AND(st.pc, B.NOT(ok))
            self.event(kind="assert", what=t["msg"], det=t["det"], pc=bad, ln=t["ln"], fn=f["path"], local=f["local"])
            st.pc = B.AND(st.pc, ok)
            return [(t["to"], st)]
        if k == "drop":
            if t["needs"]:
                self.event(kind="drop", ty=self.types[t["t"]]["name"], pc=st.pc, fn=f["path"], ln=t["ln"])
            return [(t["to"], st)]
        if k == "call":
            return self.call(st, fr, t, f)
        if k == "unreachable":
            self.event(kind="assert", what="unreachable", det="", pc=st.pc, ln=f["span"], fn=f["path"], local=f["local"])
            return []
        if k == "asm":
            self.event(kind="asm", pc=st.pc, fn=f["path"], ln=t["ln"])
            raise Unsupported("inline asm in " + f["path"])
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def set_discr(self, st, fr, s):
        ty = s[3]
        v = self.read_place(st, fr, s[1])
        if v is not None and v[0] == "e":
            for a in v[2]:
                if a[0] == s[2]:
                    self.write_place(st, fr, s[1], ("e", ty, ((s[2], 1, a[2]),)))
                    return
        n = len(self.types[ty]["v"][s[2]]["f"])
        self.write_place(st, fr, s[1], ("e", ty, ((s[2], 1, (None,) * n),)))

    def call(self, st, fr, t, f):
        fo = t["f"]
        if "c" in fo and "fn" in fo["c"]:
            fn = fo["c"]["fn"]
        else:
            fn = None
        args = [self.operand(st, fr, a) for a in t["a"]]
        if fn is None:
            fn = {"path": "?indirect"}
            fns = self.fn_values(self.operand(st, fr, fo))
            if fns is None:
                ret = self.apply(fn, args, t["at"], t["dt"], st, t["ln"], f)
            else:
                ret = self.call_values(st, fns, args, t["at"], t["dt"], t["ln"], f)
        else:
            ret = self.apply(fn, args, t["at"], t["dt"], st, t["ln"], f)
        if st.pc == 0 or t["to"] < 0:
            if t["to"] < 0 and st.pc:
                self.event(kind="assert", what="diverges", det=fn["path"], pc=st.pc, ln=t["ln"], fn=f["path"], local=f["local"])
            return []
        self.write_place(st, fr, t["d"], ret)
        return [(t["to"], st)]

    def is_panic(self, path):
        return path.startswith(PANIC_PREFIX)

    def apply(self, fn, args, aty, dty, st, ln, f):
        path = fn["path"]
        rp = fn.get("rpath", path)
        if self.is_panic(rp) or self.is_panic(path):
            self.event(kind="assert", what="panic", det=rp, pc=st.pc, ln=ln, fn=f["path"], local=f["local"])
            st.pc = 0
            return None
        info = dict(fn=fn, aty=aty, dty=dty, ln=ln, f=f)
        for key in (rp, path):
            nat = self.natives.get(key)
            if nat is not None:
                r = nat(self, args, st, info)
                if r is not NotImplemented:
                    return r
        if fn.get("trait"):
            nat = self.natives.get(fn["trait"] + "::*")
            if nat is not None:
                r = nat(self, args, st, info)
                if r is not NotImplemented:
                    return r
        if fn.get("virtual") and args and args[0] is not None and args[0][0] == "r":
            r = self.call_dyn(fn, args, aty, dty, st, ln, f)
            if r is not NotImplemented:
                return r
        if fn.get("intrinsic"):
            raise Unsupported("intrinsic " + rp)
        if "ctor" in fn:
            return self.construct(fn["ctor"], args)
        i = fn.get("i")
        if fn.get("trait") in FN_TRAITS and i is not None and len(args) == 2:
            callee = self.p.fns[i]
            me = self.types[fn["targs"][0]]
            if me["k"] == "fndef" and "ctor" in me["fn"] and args[1] is not None and args[1][0] == "s":
                return self.construct(me["fn"]["ctor"], args[1][1])
            if callee["kind"] == "fnptr_shim":
                me = self.types[fn["targs"][0]]
                v = args[0]
                while v is not None and v[0] == "r":
                    v = self.load_ref(st, v)
                g = [(1, me["fn"])] if "fn" in me else self.fn_values(v)
                if g is None or args[1] is None or args[1][0] != "s":
                    raise Unsupported("call of " + me["name"])
                if len(g) == 1 and "closure" not in g[0][1]:
                    return self.call_item(st, g[0][1], list(args[1][1]), ln, f)
                return self.call_values(st, g, list(args[1][1]), aty, dty, ln, f)
            if me["k"] in ("closure", "fndef") and callee["kind"] != "closure_once" and args[1] is not None and args[1][0] == "s":
                args = ([] if me["k"] == "fndef" else [args[0]]) + list(args[1][1])
        if self.api_hook is not None:
            r = NotImplemented
            if i is not None and self.p.fns[i]["local"]:
                r = self.api_hook(fn, args, dty, st, ln, f)
            elif i is None or "blocks" not in self.p.fns[i]:
                r = self.foreign_hook(fn, args, aty, dty, st, ln, f)
            if r is not NotImplemented:
                return r
        if i is not None and "blocks" in self.p.fns[i]:
            if self.opaque_local is None or not self.opaque_local(self.p.fns[i]):
                if self.next_left is not None and self.p.fns[i]["local"] and path.endswith("Iterator::next"):
                    return self.outer_next(i, args, st, ln, f)
                return self.run_fn(i, args, st)
        # unknown callee: opaque result
        self.event(kind="unknown", path=rp, pc=st.pc, fn=f["path"], ln=ln)
        key = tuple(self.canon(a, st) for a in args)
        return self.sym(dty, ("call", rp, key))

    def call_item(self, st, fn, args, ln, f):
        """call of a function item known by its resolved name"""
        if "ctor" in fn:
            return self.construct(fn["ctor"], args)
        i = fn.get("i")
        if i is None or "blocks" not in self.p.fns[i]:
            raise Unsupported("function value " + fn["path"])
        b = self.p.fns[i]
        return self.apply(fn, args, [self.local_ty(b, k + 1) for k in range(b["argc"])], self.local_ty(b, 0), st, ln, f)

    def construct(self, ctor, args):
        """a tuple struct's or variant's constructor used as a function"""
        ty, var = ctor
        if self.types[ty]["kind"] == "struct":
            return ("s", tuple(args))
        return ("e", ty, ((var, 1, tuple(args)),))

    def closure_ptr(self, ty):
        """a capture-free closure turned into a function pointer"""
        t = self.types[ty]
        return ("fn", json.dumps({"path": t["path"], "closure": t["i"]}, sort_keys=True))

    def fn_values(self, v, g=1):
        """the functions a function pointer may designate, with their conditions"""
        if v is not None and v[0] == "fn":
            return [(g, json.loads(v[1]))]
        if v is not None and v[0] == "o" and v[1][0] == "mux":
            B = self.B
            a = self.fn_values(v[1][2], B.AND(g, v[1][1]))
            b = self.fn_values(v[1][3], B.AND(g, B.NOT(v[1][1])))
            if a is None or b is None:
                return None
            return [x for x in a + b if x[0]]
        return None

    def call_values(self, st, fns, args, aty, dty, ln, f):
        outs = []
        for g, fn in fns:
            pc = self.B.AND(st.pc, g)
            if not pc:
                continue
            s = St(dict(st.c), pc)
            if "closure" in fn:
                b = self.p.fns[fn["closure"]]
                if "blocks" not in b:
                    raise Unsupported("function value " + fn["path"])
                env = ("s", ())
                if self.types[self.local_ty(b, 1)]["k"] == "ref":
                    env = self.newcell(s, env)
                r = self.run_fn(fn["closure"], [env] + list(args), s)
            elif "ctor" in fn or "i" in fn and "blocks" in self.p.fns[fn["i"]]:
                r = self.call_item(s, fn, list(args), ln, f)
            else:
                r = self.apply(fn, args, aty, dty, s, ln, f)
            if s.pc:
                s.c[("ret", 0)] = r
                outs.append(s)
        if not outs:
            st.pc = 0
            return None
        j = self.join(outs)
        r = j.c.pop(("ret", 0))
        st.c, st.pc = dict(j.c), j.pc
        return r

    def local_ty(self, body, k):
        x = body["locals"][k]
        return x if isinstance(x, int) else x["t"]

    def outer_next(self, i, args, st, ln, f):
        """a step of one of the library's own iterators, taken by code that drives it: after the
        allowed number of steps the analysis stops at the head of the next step"""
        left = self.next_left
        self.event(kind="next_head", val=args[0] if args else None, st=dict(st.c), pc=st.pc, fn=f["path"], ln=ln)
        if left <= 0:
            self.event(kind="cut_next", pc=st.pc, fn=f["path"], ln=ln)
            st.pc = 0
            return None
        self.next_left = None
        try:
            return self.run_fn(i, args, st)
        finally:
            self.next_left = left - 1

    def canon(self, v, st, depth=0):
        """value with references replaced by what they point at (for opaque terms)"""
        if v is None or depth > 6:
            return v
        if v[0] == "r":
            out = []
            for g, t in v[1]:
                try:
                    if t[2] is not None:
                        x = ("slice", self.load_target(st, (t[0], t[1], None)), t[2])
                    else:
                        x = self.canon(self.load_target(st, t), st, depth + 1)
                except Unsupported:
                    x = ("ptr", t)
                out.append((g, x))
            return ("r", tuple(out))
        if v[0] == "s":
            return ("s", tuple(self.canon(x, st, depth + 1) for x in v[1]))
        return v

    # ------------------------------------------------------------------ helpers for rules
    def call_method(self, root, args, pc=1, cells=None):
        """Analyse a local function (root descriptor) from condition pc."""
        st = St(dict(cells or {}), pc)
        v = self.run_fn(root["i"], list(args), st)
        return v, st

    def newcell(self, st, v):
        self.uid += 1
        k = ("x", self.uid)
        st.c[k] = v
        return ("r", ((1, (k, (), None)),))

    def enum_guard(self, v, name):
        """guard under which enum value v is variant `name`, and its fields"""
        if v[0] == "o":
            raise Unsupported("opaque enum")
        t = self.types[v[1]]
        for vi, g, fs in v[2]:
            if t["v"][vi]["n"] == name:
                return g, fs
        return 0, None

    def some(self, v):
        return self.enum_guard(v, "Some")

    def equal_under(self, care, a, b):
        """0 if a == b on all inputs in care; otherwise the BDD of a differing input"""
        B = self.B
        if a == b:
            return 0
        if a is None or b is None:
            return care
        if a[0] != b[0]:
            return care
        if a[0] == "b":
            if len(a[1]) != len(b[1]):
                return care
            d = 0
            for x, y in zip(a[1], b[1]):
                if x != y:
                    d = B.OR(d, B.AND(care, B.XOR(x, y)))
            return d
        if a[0] == "s":
            if len(a[1]) != len(b[1]):
                return care
            d = 0
            for x, y in zip(a[1], b[1]):
                d = B.OR(d, self.equal_under(care, x, y))
            return d
        if a[0] == "e":
            if a[1] != b[1]:
                return care
            d = 0
            da = {v: (g, f) for v, g, f in a[2]}
            db = {v: (g, f) for v, g, f in b[2]}
            for v in set(da) | set(db):
                ga, fa = da.get(v, (0, None))
                gb, fb = db.get(v, (0, None))
                d = B.OR(d, B.AND(care, B.XOR(ga, gb)))
                both = B.AND(care, B.AND(ga, gb))
                if both and fa:
                    for x, y in zip(fa, fb):
                        d = B.OR(d, self.equal_under(both, x, y))
            return d
        return care
