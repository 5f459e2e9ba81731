"""C23: what client programs the type checker accepts (type-level witnesses plus an inventory of signatures and field visibility)."""
import json

import text
from model import Model, Missing, Subject
from absint import St

# fields that the documented interface exposes for reading and writing; everything else is reached through queries
OPEN = {"CpuIdResult": None, "CacheInfo": {"num", "typ"}, "ExtendedState": {"subleaf"}}
# how values come from outside: the entry type, and the documented iterator over AMD topology levels
MAKERS = {"CpuId": None, "ExtendedCpuTopologyIter": {"new"}}
READER = "raw_cpuid::CpuIdReader + 'static"


def last(p):
    return p.rsplit("::", 1)[-1]


def split_generics(s):
    """top-level arguments of "X<A, B<C>>" """
    i = s.find("<")
    if i < 0:
        return []
    out, depth, cur = [], 0, ""
    for c in s[i + 1:s.rindex(">")]:
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += c in "<([" 
        depth -= c in ">)]"
        cur += c
    return out + [cur.strip()] if cur.strip() else out


class Client:
    """a client crate of one-line functions; which of them the compiler rejects, and with what code"""

    def __init__(self, ctx, name, head=""):
        self.ctx, self.name, self.head, self.w = ctx, name, head.splitlines(), []

    def add(self, key, line):
        assert "\n" not in line
        self.w.append((key, line))

    def run(self):
        base = ["#![allow(warnings)]"] + self.head
        src = "\n".join(base + [l.replace("@", "w%d" % i) for i, (_, l) in enumerate(self.w)]) + "\n"
        r = self.ctx.rustc(self.name, src, extra=("--error-format=json",))
        errs = {}
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("level") != "error":
                continue
            for s in m.get("spans", ()):
                if s["is_primary"]:
                    while s.get("expansion"):
                        s = s["expansion"]["span"]
                    errs.setdefault(s["line_start"], set()).add(((m.get("code") or {}).get("code"), m["message"]))
            if not m.get("spans") and "aborting due to" not in m["message"]:
                raise Missing("client crate %s: %s" % (self.name, m["message"]))
        n = len(base)
        for ln in errs:
            if ln <= n:
                raise Missing("client crate %s: %s" % (self.name, sorted(str(x) for x in errs[ln])))
        return {k: errs.get(n + 1 + i, set()) for i, (k, _) in enumerate(self.w)}


def codes(e):
    return ", ".join(sorted("%s %s" % (c or "", m.split("\n")[0]) for c, m in e))


def has_ref(T, ty, depth=0):
    """a borrow inside a returned type"""
    t = T[ty]
    if depth > 6:
        return False
    if t["k"] in ("ref", "str"):
        return True
    if t["k"] == "adt":
        return any(has_ref(T, x, depth + 1) for x in t.get("targs", ())) or "'" in t["name"] or "&" in t["name"]
    if t["k"] in ("tuple", "closure"):
        return any(has_ref(T, x, depth + 1) for x in t.get("f", ()))
    if t["k"] in ("array", "slice"):
        return has_ref(T, t["of"], depth + 1)
    return False


def local_adts(T, ty, depth=0):
    t = T[ty]
    out = set()
    if depth > 6:
        return out
    if t["k"] == "adt":
        if t["local"]:
            out.add(t["path"])
        for x in t.get("targs", ()):
            out |= local_adts(T, x, depth + 1)
    elif t["k"] in ("ref", "ptr"):
        out |= local_adts(T, t["to"], depth + 1) if "to" in t else set()
    elif t["k"] in ("tuple", "closure"):
        for x in t.get("f", ()):
            out |= local_adts(T, x, depth + 1)
    elif t["k"] in ("array", "slice"):
        out |= local_adts(T, t["of"], depth + 1)
    return out


def generics(name):
    """(declaration, use) of a client function's type parameters for a library type"""
    g = split_generics(name)
    return ["'static" if x.startswith("'") else x for x in g]


def c23(ctx):
    ctx.explanation = (
        "Client crates are type-checked against the library's current source. For every public type: Send and Sync witnesses for a source that has "
        "only that property, and negative witnesses for a source that lacks it; for every private field: a witness that a client cannot name it, and "
        "for every public function that returns a borrow a witness that the borrow cannot be kept longer than the value. Over the typed signatures of "
        "all public functions and trait methods: none builds a record or iterator from anything but a record, iterator or CPUID source, none takes or "
        "gives an exclusive reference to one, except Iterator::next. Control witnesses show that the compiler rejects what it has to reject."
    )
    p = ctx.prog()
    T = p.types
    pubs = [a for a in p.d["adts"] if a["pub"]]
    structs = {}
    # ---- (a) auto traits
    head = ("fn is_send<T: Send>() {}\nfn is_sync<T: Sync>() {}\n"
            "#[derive(Clone)] struct NotSend(std::marker::PhantomData<std::sync::MutexGuard<'static, ()>>);\n"
            "#[derive(Clone)] struct NotSync(std::cell::Cell<u32>);\n"
            "impl raw_cpuid::CpuIdReader for NotSend { fn cpuid2(&self, a: u32, c: u32) -> raw_cpuid::CpuIdResult { panic!() } }\n"
            "impl raw_cpuid::CpuIdReader for NotSync { fn cpuid2(&self, a: u32, c: u32) -> raw_cpuid::CpuIdResult { panic!() } }")
    c = Client(ctx, "c23_auto", head)
    for q, rej in (("send::<std::rc::Rc<u8>>", 1), ("sync::<std::cell::Cell<u8>>", 1), ("send::<std::cell::Cell<u8>>", 0), ("sync::<u8>", 0), ("send::<NotSend>", 1), ("sync::<NotSync>", 1)):
        c.add(("control", q, rej), "fn @() { is_%s() }" % q)
    for a in pubs:
        t = T[a["t"]]
        n = last(a["path"])
        g = generics(t["name"])
        tys = [x for x in g if not x.startswith("'")]
        if len(tys) > 1:
            raise Missing("auto-trait witness for %s" % t["name"])
        for tr, q in (("Send", "is_send"), ("Sync", "is_sync")):
            if tys:
                args = "<%s>" % ", ".join(x if x.startswith("'") else "R" for x in g)
                c.add((tr, a["path"], 0), "fn @<R: %s + %s>() { %s::<raw_cpuid::%s%s>() }" % (READER, tr, q, n, args))
                args = "<%s>" % ", ".join(x if x.startswith("'") else "Not" + tr for x in g)
                c.add((tr, a["path"], 1), "fn @() { %s::<raw_cpuid::%s%s>() }" % (q, n, args))
            else:
                args = "<%s>" % ", ".join(g) if g else ""
                c.add((tr, a["path"], 0), "fn @() { %s::<raw_cpuid::%s%s>() }" % (q, n, args))
    span = {a["path"]: a["span"] for a in pubs}
    res = c.run()
    gone = set()
    for (tr, what, rej), e in res.items():
        if tr == "control":
            ctx.count("controls")
            if bool(e) != bool(rej) or any(x != "E0277" for x, _ in e):
                raise Missing("control witness %s: %s" % (what, codes(e)))
            continue
        if any(x in ("E0412", "E0425", "E0432", "E0433", "E0107", "E0603", "E0574") for x, _ in e):
            gone.add(what)
            continue
        ctx.count("auto_trait_witnesses")
        if any(x != "E0277" for x, _ in e):
            raise Missing("auto-trait witness %s %s: %s" % (tr, what, codes(e)))
        if e and not rej:
            ctx.bad("%s:%s" % (tr, what), "%s is not %s although the CPUID source is: %s" % (what, tr, codes(e)), at=span[what])
        elif not e and rej:
            ctx.bad("not%s:%s" % (tr, what), "%s is %s although the CPUID source it holds is not" % (what, tr), at=span[what])
        else:
            ctx.good()
    if gone:
        ctx.note("not nameable by clients: " + ", ".join(sorted(gone)))
        ctx.count("types_not_nameable", len(gone))
    pubs = [a for a in pubs if a["path"] not in gone]
    # ---- (c) fields
    c = Client(ctx, "c23_field", "pub struct Mine { pub a: u32 }\npub mod m { pub struct Hidden { a: u32 } }")
    c.add(("control", "open", None), "fn @(x: &mut Mine) { let _ = &x.a; }")
    c.add(("control", "closed", None), "fn @(x: &mut m::Hidden) { let _ = &x.a; }")
    c.add(("control", "absent", None), "fn @(x: &mut m::Hidden) { let _ = &x.zzz; }")
    for a in pubs:
        t = T[a["t"]]
        n = last(a["path"])
        if t["kind"] != "struct":
            continue
        fs = t["v"][0]["f"]
        structs[a["path"]] = fs
        g = generics(t["name"])
        args = "<%s>" % ", ".join(x if x.startswith("'") else "R" for x in g) if g else ""
        decl = "<R: %s>" % READER if any(not x.startswith("'") for x in g) else ""
        if n in OPEN and OPEN[n] is None:
            continue
        for f in fs:
            c.add(("field", a["path"], f[0]), "fn @%s(x: &mut raw_cpuid::%s%s) { let _ = &x.%s; }" % (decl, n, args, f[0]))
    opaque = set()
    for (k, what, f), e in c.run().items():
        cs = {x for x, _ in e}
        if k == "control":
            ctx.count("controls")
            if cs != {"open": set(), "closed": {"E0616"}, "absent": {"E0609"}}[what]:
                raise Missing("control witness %s: %s" % (what, codes(e)))
            continue
        ctx.count("field_witnesses")
        if not e:
            if f in (OPEN.get(last(what)) or ()):
                ctx.count("documented_open_fields")
                ctx.good()
            else:
                ctx.bad("field:%s.%s" % (what, f), "clients can read and overwrite field %s of %s" % (f, what), at=span[what])
        elif cs <= {"E0616"}:
            opaque.add(what)
            ctx.good()
        else:
            raise Missing("field witness %s.%s: %s" % (what, f, codes(e)))
    for s, fs in structs.items():
        if s in opaque or (last(s) in OPEN) or last(s) == "CpuIdReaderNative":
            continue
        ctx.count("open_structs")
        ctx.bad("open:" + s, "clients can write a literal of %s: no field of it is private" % s, at=span[s])
    # ---- constructors and exclusive access
    for feat in ("", "serialize"):
        q = p if not feat else ctx.prog(feat)
        U = q.types
        for r in q.roots:
            if not r["pub"]:
                continue
            ctx.count("signatures")
            made = local_adts(U, r["out"]) & opaque
            given = set()
            for x in r["ins"]:
                given |= local_adts(U, x)
            for s in sorted(made):
                if made & given and r.get("trait"):
                    # iterating, cloning, comparing: from a value of the same family
                    continue
                ok = MAKERS.get(last(s), False)
                if ok is None or (ok and r["name"] in ok and not r.get("trait")):
                    ctx.count("documented_makers")
                    continue
                src = {x for x in given if x in opaque}
                loose = [U[x]["name"] for x in r["ins"] if not (local_adts(U, x) & opaque)]
                if not src:
                    ctx.bad("make:%s" % r["path"], "clients can build %s with %s without the library reading it" % (s, r["path"]), at=r["span"])
                elif s in src and loose:
                    ctx.bad("alter:%s" % r["path"], "clients can derive a changed %s from another with %s(%s)" % (s, r["path"], ", ".join(loose)), at=r["span"])
            for x in list(r["ins"]):
                t = U[x]
                if t["k"] == "ref" and t.get("mut"):
                    own = local_adts(U, x) & opaque
                    if own and not (r.get("trait") or "").split("<")[0].endswith(("iter::Iterator", "iter::DoubleEndedIterator")):
                        ctx.bad("mut:%s" % r["path"], "%s takes an exclusive reference to %s" % (r["path"], ", ".join(sorted(own))), at=r["span"])
            t = U[r["out"]]
            if r["ins"] and has_mut(U, r["out"]) and (local_adts(U, r["ins"][0]) & opaque):
                ctx.bad("mutout:%s" % r["path"], "%s gives exclusive access to what %s holds" % (r["path"], U[r["ins"][0]]["name"]), at=r["span"])
            ctx.good()
    # ---- (b) borrows
    c = Client(ctx, "c23_borrow", "struct Own { s: String }\nimpl Own { fn b(&self) -> &str { &self.s } fn k(&self) -> &'static str { \"\" } }")
    c.add(("control", "b", 1), "fn @(x: Own) -> &'static str { x.b() }")
    c.add(("control", "k", 0), "fn @(x: Own) -> &'static str { x.k() }")
    todo = {}
    for r in p.roots:
        if not r["pub"] or not has_ref(T, r["out"]) or r.get("derived"):
            continue
        if not r["ins"] or (r.get("trait") or "").startswith(("core::fmt", "std::fmt")):
            continue
        o = local_adts(T, r["ins"][0])
        if not r.get("self") or r["self"] not in span or r["self"] in gone:
            continue
        ctx.count("borrowing_functions")
        t0 = T[r["ins"][0]]
        s = T[[a for a in pubs if a["path"] == r["self"]][0]["t"]]
        g = generics(s["name"])
        args = "<%s>" % ", ".join(x if x.startswith("'") else "R" for x in g) if g else ""
        decl = "<R: %s>" % READER if any(not x.startswith("'") for x in g) else ""
        ty = "raw_cpuid::%s%s" % (last(r["self"]), args)
        if len(r["ins"]) != 1 or t0["k"] != "ref" or t0.get("mut"):
            ctx.count("borrowing_functions_of_other_shape")
            continue
        call = "<%s>::%s(&x)" % (ty, r["name"]) if not r.get("trait") else None
        if call is None:
            tr = r["trait"].replace("std::", "core::")
            call = "<%s as %s>::%s(&x)" % (ty, tr, r["name"])
        todo[r["path"]] = r
        # the value dies before the borrow is used: must be rejected; the twin keeps it alive: must be accepted
        c.add(("dead", r["path"], 1), "fn @%s(x: %s) { let k; { let x: %s = x; k = %s; } let _ = &k; }" % (decl, ty, ty, call))
        c.add(("live", r["path"], 0), "fn @%s(x: %s) { let k = %s; let _ = &k; let _ = &x; }" % (decl, ty, call))
    res = c.run()
    for (k, what, rej), e in res.items():
        cs = {x for x, _ in e}
        if k == "control":
            ctx.count("controls")
            if bool(e) != bool(rej) or not cs <= {"E0597", "E0515"}:
                raise Missing("control witness %s: %s" % (what, codes(e)))
            continue
        if k == "live":
            if e:
                raise Missing("borrow witness %s: %s" % (what, codes(e)))
            continue
        ctx.count("borrow_witnesses")
        if cs and not cs <= {"E0597", "E0505"}:
            raise Missing("borrow witness %s: %s" % (what, codes(e)))
        if cs or only_constants(ctx, p, todo[what]):
            ctx.good()
        else:
            ctx.bad("borrow:%s" % what, "what %s returns may be kept after the value it points into is gone" % what, at=todo[what]["span"])
    ctx.floor("auto_trait_witnesses", 90)
    ctx.floor("field_witnesses", 60)
    ctx.floor("signatures", 900)
    ctx.floor("borrow_witnesses", 4)
    ctx.floor("controls", 9)


def has_mut(T, ty, depth=0):
    t = T[ty]
    if depth > 6:
        return False
    if t["k"] == "ref":
        return bool(t.get("mut")) or has_mut(T, t["to"], depth + 1)
    if t["k"] == "adt":
        return any(has_mut(T, x, depth + 1) for x in t.get("targs", ()))
    if t["k"] in ("tuple", "closure"):
        return any(has_mut(T, x, depth + 1) for x in t.get("f", ()))
    return False


def only_constants(ctx, p, r):
    """every text the function can return is a constant of the program: nothing of the value is pointed into"""
    m = Model(p)
    ty = p.types[r["ins"][0]]["to"]
    s = Subject(r["path"], ty, m.it.sym(ty, ("any", r["path"])), St({}, 1), 1)
    try:
        out = m.call(s, r["name"])
        if out.err or out.val is None:
            return False
        alts = text.text(m.it, out.st, out.val)
    except Exception:
        return False
    return bool(alts) and all(x[0] == "const" for _, x in alts)
