"""The library as the analysis sees it: constructor, leaf queries, payload accessors,
nested payloads and iterator items, each analysed once for ALL register contents."""
import re
from absint import Prog, Interp, St, Unsupported, NoBound, Blowup, UNIT
from spec import Eval, load as load_spec

READER = ("o", ("reader",))


def reader(rid=None):
    return READER if rid is None else ("o", ("reader", rid))


class Result:
    __slots__ = ("val", "st", "events", "err", "root", "pc", "cell", "ref")

    def __init__(self, val, st, events, err, root, pc):
        self.cell = self.ref = None
        self.val, self.st, self.events, self.err, self.root, self.pc = val, st, events, err, root, pc

    def kinds(self, k):
        return [e for e in self.events if e["kind"] == k]


class Subject:
    """a reported value: where it comes from, its type, its abstract value and when it exists"""

    def __init__(self, label, ty, val, st, guard, sec=None, item=None):
        self.label, self.ty, self.val, self.st, self.guard = label, ty, val, st, guard
        self.sec, self.item = sec, item


class Model:
    def __init__(self, dump, order="major", rid=None, shared=None):
        self.p = dump if isinstance(dump, Prog) else Prog(dump)
        self.it = shared.it if shared else Interp(self.p, order)
        self.B = self.it.B
        self.types = self.p.types
        self.rid = rid
        self.ev = Eval(self.it, rid)
        self._getters = {}
        self._acc = {}
        self.res_ctor = None
        self.analysed = []      # (function path) analysed as an entry point

    # ------------------------------------------------------------ running
    def run(self, root, args, st, horizon=None, nexts=None):
        it = self.it
        keep = it.events
        it.events = []
        it.horizon = horizon
        it.next_left = nexts
        s = St(dict(st.c), st.pc)
        err = None
        v = None
        self.analysed.append(root["path"])
        try:
            v = it.run_fn(root["i"], list(args), s)
        except (Unsupported, NoBound, Blowup, MemoryError) as e:
            err = "%s: %s" % ("Blowup" if isinstance(e, MemoryError) else type(e).__name__, e)
            it.depth = 0
            it.stack = []
            it.frames = []
        except (RecursionError, IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError) as e:
            # a shape the transfer functions do not know: never a verdict
            err = "%s in the analysis: %s" % (type(e).__name__, str(e)[:80])
            it.depth = 0
            it.stack = []
            it.frames = []
        evs = it.events
        it.events = keep
        it.horizon = None
        it.next_left = None
        return Result(v, s, evs, err, root, st.pc)

    def p_reads(self, root):
        """does code reachable from this function call the CPUID source at all?"""
        fns = self.p.fns
        memo = self.p.__dict__.setdefault("_preads", {})
        i = root["i"]
        if i in memo:
            return memo[i]
        seen, todo = set(), [i]
        r = False
        while todo and not r:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for b in fns[x].get("blocks", ()):
                c = b["t"].get("f", {}).get("c", {}).get("fn") if b["t"]["k"] == "call" else None
                if c is None:
                    continue
                if "cpuid" in c["path"].lower():
                    r = True
                    break
                if c.get("i") is not None and fns[c["i"]]["local"]:
                    todo.append(c["i"])
        memo[i] = r
        return r

    def ctor(self):
        if self.res_ctor is None:
            root = self.p.meth.get(("CpuId", "with_cpuid_reader"))
            if root is None:
                raise Missing("constructor CpuId::with_cpuid_reader")
            self.res_ctor = self.run(root, [reader(self.rid)], St({}, 1))
            if self.res_ctor.err:
                raise Missing("constructor not analysable: " + self.res_ctor.err)
        return self.res_ctor

    def getter_roots(self):
        return {
            n: r
            for (s, n), r in self.p.meth.items()
            if s == "CpuId" and r["pub"] and n.startswith("get_") and len(r["ins"]) == 1
        }

    def getter(self, name):
        r = self._getters.get(name)
        if r is None:
            root = self.p.meth.get(("CpuId", name))
            if root is None:
                raise Missing("leaf query CpuId::" + name)
            c = self.ctor()
            st = St(dict(c.st.c), 1)
            ref = self.it.newcell(st, c.val)
            r = self._getters[name] = self.run(root, [ref], st)
        return r

    def is_option(self, ty):
        t = self.types[ty]
        return t["k"] == "adt" and t["path"].endswith("option::Option")

    def opt_payload(self, ty):
        return self.types[ty]["v"][1]["f"][0][1]

    def tpath(self, ty):
        t = self.types[ty]
        return t.get("path", t["name"])

    def payload(self, name):
        """Subject for the value a leaf query reports"""
        r = self.getter(name)
        if r.err:
            raise Missing("CpuId::%s not analysable: %s" % (name, r.err))
        g, fs = self.it.some(r.val)
        ty = self.opt_payload(r.root["out"])
        return Subject("CpuId::" + name, ty, fs[0] if fs else None, r.st, g, sec=name)

    def methods(self, ty):
        path = self.tpath(ty)
        return {n: r for (s, n), r in self.p.meth.items() if s == path}

    def accessors(self, ty):
        path = self.tpath(ty)

        def takes_self(r):
            t = self.types[r["ins"][0]]
            if t["k"] == "ref":
                t = self.types[t["to"]]
            return t.get("path", t["name"]) == path

        return {n: r for n, r in self.methods(ty).items() if r["pub"] and len(r["ins"]) == 1 and takes_self(r)}

    def recv(self, st, subj, root):
        """receiver argument of the right shape for a one-argument method"""
        t = self.types[root["ins"][0]]
        if t["k"] == "ref":
            return self.it.newcell(st, subj.val)
        return subj.val

    def call(self, subj, name, horizon=None, pc=None):
        key = (subj.label, name, horizon)
        r = self._acc.get(key)
        if r is None:
            root = self.methods(subj.ty).get(name)
            if root is None:
                raise Missing("%s::%s" % (self.tpath(subj.ty), name))
            st = St(dict(subj.st.c), subj.guard if pc is None else pc)
            a = self.recv(st, subj, root)
            r = self._acc[key] = self.run(root, [a], st, horizon)
        return r

    def trait(self, ty, trait, name):
        path = self.tpath(ty)
        for (s, t, n), r in self.p.tmeth.items():
            if s == path and n == name and t.split("<")[0] == trait:
                return r
        return None

    def nested(self, subj, name, root=None):
        """Subject for a payload returned (plainly or in Option) by accessor `name`"""
        r = self.call(subj, name)
        if r.err:
            raise Missing("%s::%s not analysable: %s" % (self.tpath(subj.ty), name, r.err))
        out = r.root["out"]
        if self.is_option(out):
            g, fs = self.it.some(r.val)
            return Subject(subj.label + "." + name, self.opt_payload(out), fs[0] if fs else None, r.st, self.B.AND(r.st.pc, g), subj.sec)
        return Subject(subj.label + "." + name, out, r.val, r.st, r.st.pc, subj.sec)

    # ------------------------------------------------------------ comparison
    def resize(self, bits, w):
        return tuple(bits[:w]) + (0,) * max(0, w - len(bits))

    def diff_bits(self, care, v, bits):
        """BDD of inputs where integer/bool v differs from documented bits"""
        B = self.B
        if v is None or v[0] != "b":
            return None
        a = v[1]
        n = max(len(a), len(bits))
        a = self.resize(a, n)
        b = self.resize(bits, n)
        d = 0
        for x, y in zip(a, b):
            if x != y:
                d = B.OR(d, B.AND(care, B.XOR(x, y)))
        return d

    def describe(self, f):
        """one concrete register assignment of a BDD, readable"""
        w = self.B.witness(f)
        if w is None:
            return {}
        out = {}
        for base, bits in sorted(w.items(), key=str):
            v = 0
            for b, x in bits.items():
                v |= x << b
            out[self.base_name(base)] = hex(v)
        return out

    def base_name(self, base):
        if isinstance(base, tuple) and base and str(base[0]).startswith("cpuid"):
            l = hex(base[1]) if isinstance(base[1], int) else "leaf*"
            s = str(base[2]) if isinstance(base[2], int) else "sub*"
            return "%sCPUID(%s,%s).%s" % ("" if base[0] == "cpuid" else base[0] + ":", l, s, base[3])
        return str(base)[:60]

    def fmtbits(self, bits):
        """provenance description of a bit vector"""
        B = self.B
        c = B.is_const(bits)
        if c is not None:
            return "constant %d" % c
        runs = []
        for x in bits:
            if x < 2:
                d = ("c", x)
            else:
                base, bit = B.names[B.lvl[x]]
                d = ("v", base, bit) if B.lo[x] == 0 and B.hi[x] == 1 else ("f",)
            if runs and d[0] == "v" and runs[-1][0] == "v" and runs[-1][1] == d[1] and runs[-1][3] + 1 == d[2]:
                runs[-1][3] = d[2]
            elif runs and d[0] == "c" and runs[-1][0] == "c" and runs[-1][1] == d[1]:
                runs[-1][2] += 1
            elif runs and d[0] == "f" and runs[-1][0] == "f":
                runs[-1][1] += 1
            else:
                runs.append(["v", d[1], d[2], d[2]] if d[0] == "v" else ["c", d[1], 1] if d[0] == "c" else ["f", 1])
        s = []
        for r in reversed(runs):
            if r[0] == "v":
                s.append("%s[%s]" % (self.base_name(r[1]), r[2] if r[2] == r[3] else "%d:%d" % (r[3], r[2])))
            elif r[0] == "c":
                s.append("%d'%d" % (r[2], r[1]))
            else:
                s.append("%d computed bits" % r[1])
        return " ++ ".join(s)


class Missing(Exception):
    """an anchor of the property is gone or cannot be analysed: fail closed"""
