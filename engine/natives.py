"""Models of functions the analysis does not inline: the reader itself, compiler
intrinsics, and a few core-library routines whose MIR is pointer arithmetic."""
from absint import Unsupported, UNIT, b1, NoBound


def reg_index(it, leaf, sub):
    return (leaf, sub)


def distinct_consts(it, bits, pc, limit=64):
    """all constant values a word can take under pc (None if too many)"""
    B = it.B
    vals = [(pc, 0)]
    for i, b in enumerate(bits):
        if b == 0:
            continue
        if b == 1:
            vals = [(g, v | (1 << i)) for g, v in vals]
            continue
        out = []
        for g, v in vals:
            g1 = B.AND(g, b)
            g0 = B.AND(g, B.NOT(b))
            if g1:
                out.append((g1, v | (1 << i)))
            if g0:
                out.append((g0, v))
        vals = out
        if len(vals) > limit:
            return None
    return vals


def source(it, leaf, sub, tag="cpuid", ty=None):
    """the four registers for (leaf, subleaf): canonical variables"""
    B = it.B
    lc = B.is_const(leaf)
    sc = B.is_const(sub)
    key = (lc if lc is not None else leaf, sc if sc is not None else sub)
    names = ["eax", "ebx", "ecx", "edx"]
    if ty is not None:
        t = it.types[ty]
        if t["k"] == "adt" and t["kind"] == "struct":
            fs = [f[0] for f in t["v"][0]["f"]]
            if sorted(fs) == names:
                names = fs
    return ("s", tuple(("b", B.word((tag, key[0], key[1], r), 32)) for r in names))


def reader_tag(it, st, a):
    """which CPUID source a call goes to"""
    v = a
    try:
        while v is not None and v[0] == "r":
            v = it.load_ref(st, v)
    except Unsupported:
        v = None
    if v is not None and v[0] == "o" and v[1][0] == "reader":
        return "cpuid" if len(v[1]) == 1 else "cpuid@%s" % v[1][1]
    it.event(kind="badreader", val=v, pc=st.pc)
    return "cpuid@?"


def read(it, leaf, sub, st, info, tag="cpuid"):
    B = it.B
    ev = dict(leaf=leaf, sub=sub, pc=st.pc, fn=info["f"]["path"], ln=info["ln"], tag=tag)
    if it.horizon is not None:
        if it.horizon <= 0:
            it.event(kind="cut", cells=dict(st.c), **ev)
            st.pc = 0
            return None
        it.horizon -= 1
    it.event(kind="read", **ev)
    l = [(st.pc, B.is_const(leaf))] if B.is_const(leaf) is not None else distinct_consts(it, leaf, st.pc, 16)
    if l is None:
        return source(it, leaf, sub, tag, info["dty"])
    acc = None
    for gl, lv in l:
        lb = B.const(lv, 32)
        s = None
        if B.is_const(sub) is None:
            s = distinct_consts(it, sub, gl, 40)
        if s is None:
            v = source(it, lb, sub, tag, info["dty"])
        else:
            v = None
            for gs, sv in s:
                x = source(it, lb, B.const(sv, 32), tag, info["dty"])
                v = x if v is None else it.mux(B.restrict(gs, gl), x, v)
        acc = v if acc is None else it.mux(B.restrict(gl, st.pc), v, acc)
    return acc


def n_cpuid2(it, args, st, info):
    if info["fn"].get("i") is not None and info["fn"].get("rpath", "CpuIdReader::cpuid2") != "CpuIdReader::cpuid2":
        return NotImplemented
    return read(it, args[1][1], args[2][1], st, info, reader_tag(it, st, args[0]))


def n_hw_cpuid_count(it, args, st, info):
    return read(it, args[0][1], args[1][1], st, info, "cpuid@hw")


def n_hw_cpuid(it, args, st, info):
    return read(it, args[0][1], it.B.const(0, 32), st, info, "cpuid@hw")


def n_cpuid1(it, args, st, info):
    if info["fn"].get("i") is not None:
        return NotImplemented
    return read(it, args[1][1], it.B.const(0, 32), st, info, reader_tag(it, st, args[0]))


def n_clone(it, args, st, info):
    """Clone::clone on an unresolved (type-parameter) Self: a reader copy"""
    fn = info["fn"]
    if fn["path"] != "core::clone::Clone::clone" or "i" in fn:
        return NotImplemented
    t = it.types[fn["targs"][0]]
    if t["k"] == "param":
        return it.load_ref(st, args[0])
    return NotImplemented


def n_eq(it, args, st, info):
    """PartialEq::eq on an unresolved (type-parameter) Self: comparing two CPUID sources"""
    fn = info["fn"]
    if "i" in fn or it.types[fn["targs"][0]]["k"] != "param":
        return NotImplemented
    a, b = args
    while a is not None and a[0] == "r":
        a = it.load_ref(st, a)
    while b is not None and b[0] == "r":
        b = it.load_ref(st, b)
    v = 1 if a == b else it.B.var(("sourceeq",) + tuple(sorted((a, b), key=str)), 0)
    if fn["path"].endswith("::ne"):
        v = it.B.NOT(v)
    it.event(kind="sourceeq", pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    return b1(v)


def opt(it, info, g, val):
    """Option<..> of the call's destination type: Some(val) under g"""
    ty = info["dty"]
    t = it.types[ty]
    alts = []
    for i, v in enumerate(t["v"]):
        if v["n"] == "None":
            ng = it.B.NOT(g)
            if ng:
                alts.append((i, ng, ()))
        else:
            if g:
                alts.append((i, g, (val,)))
    return ("e", ty, tuple(alts))


# ---------------------------------------------------------------- slices
def n_from_raw_parts(it, args, st, info):
    p, n = args
    if p[0] != "r":
        return NotImplemented
    it.event(kind="rawslice", ptr=p, len=n[1], elem=info["fn"]["targs"][0], views=[raw_view(it, st, t) for g, t in p[1]], pc=st.pc, fn=info["f"]["path"], ln=info["ln"],
             own=any(t[0][0] == it.frames[-1] for g, t in p[1]))
    return ("r", tuple((g, it.slice_from_elem(t, n[1])) for g, t in p[1]))


def raw_view(it, st, t):
    """(elements from the pointer to the end of the initialised object, object size in bytes)"""
    cell, path, _ = t
    if not path or path[-1][0] != "i":
        return None
    start = it.B.is_const(path[-1][1])
    try:
        v = it.load_target(st, (cell, path[:-1], None))
    except Unsupported:
        return None
    if v is None or v[0] != "s" or start is None or any(x is None for x in v[1]):
        return None
    return len(v[1]) - start


def n_fn_call(it, args, st, info):
    """Fn::call on a caller-supplied closure: the CPUID source itself"""
    fn = info["fn"]
    if "i" in fn or it.types[fn["targs"][0]]["k"] != "param" or len(args) != 2 or args[1] is None or args[1][0] != "s" or len(args[1][1]) != 2:
        return NotImplemented
    return read(it, args[1][1][0][1], args[1][1][1][1], st, info, reader_tag(it, st, args[0]))


def n_slice_iter(it, args, st, info):
    r = args[0]
    if r[0] != "r":
        raise Unsupported("iter over opaque slice")
    ln = slice_len(it, st, r)
    return ("si", r, it.B.const(0, it.usz), ln)


def slice_len(it, st, r):
    acc = None
    for g, t in r[1]:
        v = it.target_len(st, t)
        acc = v if acc is None else it.B.mux(g, v, acc)
    return acc


def elem_ref(it, r, ix):
    return ("r", tuple((g, it.elem_target(t, ix)) for g, t in r[1]))


def settled(B, w, pc):
    """a position the path has fixed"""
    if B.is_const(w) is None:
        r = tuple(B.restrict(x, pc) for x in w)
        if B.is_const(r) is not None:
            return r
    return w


def n_si_next(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        raise Unsupported("slice iterator state")
    _, r, pos, end = si
    pos = settled(B, pos, st.pc)
    ne = B.restrict(B.ult(pos, end), st.pc)
    val = elem_ref(it, r, pos)
    npos, _ = B.add(pos, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, B.mux(ne, npos, pos), end))
    return opt(it, info, ne, val)


def n_si_next_back(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    _, r, pos, end = si
    ne = B.restrict(B.ult(pos, end), st.pc)
    nend, _ = B.sub(end, B.const(1, it.usz))
    val = elem_ref(it, r, nend)
    it.store_ref(st, args[0], ("si", r, pos, B.mux(ne, nend, end)))
    return opt(it, info, ne, val)


def si_bounds(it, si):
    a, b = it.B.is_const(si[2]), it.B.is_const(si[3])
    if a is None or b is None:
        raise Unsupported("slice iterator with symbolic bounds")
    return a, b


def closure_inst(it, info, tyidx):
    t = it.types[tyidx]
    while t["k"] == "ref":
        t = it.types[t["to"]]
    if t["k"] == "closure":
        return t.get("i")
    if t["k"] == "fndef":
        return t["fn"].get("i")
    return None


def call_closure(it, st, fval, ftyidx, args, info, by_ref=True):
    t = it.types[ftyidx]
    i = closure_inst(it, info, ftyidx)
    if i is None:
        raise Unsupported("closure body not available: " + t["name"])
    while t["k"] == "ref":
        t = it.types[t["to"]]
    if t["k"] == "fndef":
        return it.call_item(st, t["fn"], list(args), info["ln"], info["f"])
    body = it.p.fns[i]
    if "blocks" not in body:
        raise Unsupported("closure body not available: " + t["name"])
    # closure environment parameter: &env, &mut env, or env by value
    envty = it.types[body["locals"][1]]
    if envty["k"] == "ref":
        if fval[0] != "r":
            fval = it.newcell(st, fval)
    else:
        if fval[0] == "r":
            fval = it.load_ref(st, fval)
    return it.run_fn(i, [fval] + list(args), st)


def si_loop(kind, load=False, rev=False):
    """the loop of an iterator over a slice; `load`: an array's own iterator, which yields the elements themselves"""
    def nat(it, args, st, info):
        B = it.B
        selfv = args[0]
        byref = selfv[0] == "r"
        si = it.load_ref(st, selfv) if byref else selfv
        if si is None or si[0] != "si":
            return NotImplemented
        if load is None and not it.types[info["fn"]["targs"][0]].get("path", "").endswith("array::IntoIter"):
            return NotImplemented
        a, b = B.is_const(si[2]), B.is_const(si[3])
        if a is None or b is None and kind not in ("fold", "for_each", "any", "all"):
            raise Unsupported("slice iterator with symbolic bounds")
        open_end = b is None
        if open_end and rev:
            raise Unsupported("slice iterator with symbolic bounds")
        if open_end:
            b = a + 64
        targs = info["fn"]["targs"]
        fty = targs[-1]
        if it.types[fty]["k"] not in ("closure", "fndef"):
            for x in targs:
                if it.types[x]["k"] in ("closure", "fndef"):
                    fty = x
        f = args[-1]
        if kind != "fold":
            f = it.newcell(st, f)
        from absint import St
        done = []  # (state, result)
        ended = []  # (state, accumulator) at a symbolic end
        cur = st
        acc = args[1] if kind == "fold" else None
        if kind == "fold":
            f = it.newcell(st, args[2])
        for k in reversed(range(a, b)) if rev else range(a, b):
            if open_end:
                more = B.ult(B.const(k, it.usz), si[3])
                stop = B.AND(cur.pc, B.NOT(more))
                if stop:
                    ended.append((St(dict(cur.c), stop), acc))
                cur.pc = B.AND(cur.pc, more)
                if not cur.pc:
                    break
                if k == a + 63:
                    raise Unsupported("slice iterator with symbolic bounds")
            r = elem_ref(it, si[1], B.const(k, it.usz))
            if load is not False:
                r = it.load_ref(cur, r)
            if cur.pc == 0:
                break
            if kind == "fold":
                acc = call_closure(it, cur, f, fty, [acc, r], info)
            elif kind == "for_each":
                call_closure(it, cur, f, fty, [r], info)
            elif kind in ("any", "all", "position", "find", "find_map"):
                arg = it.newcell(cur, r) if kind == "find" else r
                v = call_closure(it, cur, f, fty, [arg], info)
                if cur.pc == 0:
                    break
                if kind == "find_map":
                    if v[0] != "e":
                        raise Unsupported("find_map of %s" % v[0])
                    hit = 0
                    for i, g, fs in v[2]:
                        if fs:
                            hit, r = B.OR(hit, g), ("e", v[1], ((i, 1, fs),))
                else:
                    hit = v[1][0]
                if kind == "all":
                    hit = B.NOT(hit)
                hp = B.AND(cur.pc, hit)
                if hp:
                    s2 = St(dict(cur.c), hp)
                    done.append((s2, k, r))
                cur.pc = B.AND(cur.pc, B.NOT(hit))
            else:
                raise Unsupported("slice iterator " + kind)
        if ended and kind in ("fold", "for_each"):
            for s2, v in ended:
                s2.c[("ret", 0)] = v if kind == "fold" else UNIT
            j = it.join([s2 for s2, v in ended])
            v = j.c.pop(("ret", 0))
            st.c, st.pc = dict(j.c), j.pc
            return v
        if kind == "fold":
            return acc
        if kind == "for_each":
            return UNIT
        # merge exits
        for s2, v in ended:
            if byref:
                it.store_ref(s2, selfv, ("si", si[1], si[3], si[3]))
            s2.c[("ret", 0)] = b1(0 if kind == "any" else 1)
        res = [s2 for s2, v in ended]
        for s2, k, r in done:
            if kind == "any":
                val = b1(1)
            elif kind == "all":
                val = b1(0)
            elif kind == "position":
                val = opt(it, info, 1, it.const_int(k - a, it.usz))
            elif kind == "find_map":
                val = r
            else:
                val = opt(it, info, 1, r)
            if byref:
                it.store_ref(s2, selfv, ("si", si[1], si[2], B.const(k, it.usz)) if rev else ("si", si[1], B.const(k + 1, it.usz), si[3]))
            s2.c[("ret", 0)] = val
            res.append(s2)
        if cur.pc:
            if kind == "any":
                val = b1(0)
            elif kind == "all":
                val = b1(1)
            else:
                val = opt(it, info, 0, None)
            if byref:
                it.store_ref(cur, selfv, ("si", si[1], si[2], si[2]) if rev else ("si", si[1], si[3], si[3]))
            cur.c[("ret", 0)] = val
            res.append(St(cur.c, cur.pc))
        if not res:
            st.pc = 0
            return None
        j = it.join(res)
        val = j.c.pop(("ret", 0))
        st.c = dict(j.c)
        st.pc = j.pc
        return val

    return nat


def n_ai_try_fold(rev):
    """an array's own iterator, folded until the function says stop"""
    def nat(it, args, st, info):
        from absint import St
        B = it.B
        if args[0][0] != "r":
            return NotImplemented
        si = it.load_ref(st, args[0])
        t = it.types[info["dty"]]
        if si is None or si[0] != "si" or t["k"] != "adt":
            return NotImplemented
        goes = {"Option": "Some", "Result": "Ok", "ControlFlow": "Continue"}.get(t["path"].split("::")[-1])
        var = next((k for k, v in enumerate(t["v"]) if v["n"] == goes), None) if goes else None
        if var is None and not t["path"].endswith("NeverShortCircuit"):
            return NotImplemented
        a, b = B.is_const(si[2]), B.is_const(si[3])
        if a is None or b is None:
            raise Unsupported("array iterator with symbolic bounds")
        fty = [x for x in info["fn"]["targs"] if it.types[x]["k"] in ("closure", "fndef")]
        if not fty:
            return NotImplemented
        f = it.newcell(st, args[2])
        acc, cur, res = args[1], st, []
        for k in reversed(range(a, b)) if rev else range(a, b):
            r = it.load_ref(cur, elem_ref(it, si[1], B.const(k, it.usz)))
            left = ("si", si[1], si[2], B.const(k, it.usz)) if rev else ("si", si[1], B.const(k + 1, it.usz), si[3])
            # the element is taken before the function runs
            it.store_ref(cur, args[0], left)
            v = call_closure(it, cur, f, fty[0], [acc, r], info)
            if cur.pc == 0:
                break
            if var is None:
                acc = v[1][0]
                continue
            if v is None or v[0] != "e":
                raise Unsupported("try_fold step")
            on, acc = 0, None
            for i, g, fs in v[2]:
                if i == var:
                    on = B.OR(on, g)
                    acc = fs[0]
            stop = B.AND(cur.pc, B.NOT(on))
            if stop:
                s2 = St(dict(cur.c), stop)
                s2.c[("ret", 0)] = ("e", v[1], tuple(x for x in v[2] if x[0] != var))
                res.append(s2)
            cur.pc = B.AND(cur.pc, on)
            if cur.pc == 0:
                break
        if cur.pc:
            cur.c[("ret", 0)] = ("s", (acc,)) if var is None else ("e", info["dty"], ((var, 1, (acc,)),))
            res.append(St(cur.c, cur.pc))
        if not res:
            st.pc = 0
            return None
        j = it.join(res)
        v = j.c.pop(("ret", 0))
        st.c, st.pc = dict(j.c), j.pc
        return v
    return nat


def n_select(it, args, st, info):
    return it.mux(args[0][1][0], args[1], args[2])


def n_si_nth(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    left, _ = B.sub(end, pos)
    ne = B.restrict(B.ult(args[1][1], left), st.pc)
    at, _ = B.add(pos, args[1][1])
    npos, _ = B.add(at, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, B.mux(ne, npos, end), end))
    return opt(it, info, ne, elem_ref(it, r, at))


def n_si_last(it, args, st, info):
    B = it.B
    si = args[0]
    if si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    at, _ = B.sub(end, B.const(1, it.usz))
    return opt(it, info, B.restrict(B.ult(pos, end), st.pc), elem_ref(it, r, at))


def n_si_count(it, args, st, info):
    if args[0][0] != "si":
        return NotImplemented
    return ("b", it.B.sub(args[0][3], args[0][2])[0])


def n_si_is_empty(it, args, st, info):
    si = it.load_ref(st, args[0])
    return b1(it.B.NOT(it.B.ult(si[2], si[3])))


def n_contains(it, args, st, info):
    """<[T]>::contains for integers and strings"""
    B = it.B
    r, x = args
    if r[0] != "r":
        return NotImplemented
    ty = it.types[info["fn"]["targs"][0]]
    ints = ty["k"] in ("uint", "int", "bool", "char")
    strs = ty["k"] == "ref" and it.types[ty["to"]]["k"] == "str"
    n = B.is_const(slice_len(it, st, r))
    if n is None or not (ints or strs):
        return NotImplemented
    acc = 0
    for k in range(n):
        e = it.load_ref(st, elem_ref(it, r, B.const(k, it.usz)))
        if ints:
            acc = B.OR(acc, B.eq(e[1], it.load_ref(st, x)[1]))
        else:
            acc = B.OR(acc, bytes_eq(it, st, e, it.load_ref(st, x)))
    return b1(acc)


def n_si_len(it, args, st, info):
    si = it.load_ref(st, args[0])
    n, _ = it.B.sub(si[3], si[2])
    return ("b", n)


def n_si_size_hint(it, args, st, info):
    si = it.load_ref(st, args[0])
    n, _ = it.B.sub(si[3], si[2])
    t = it.types[info["dty"]]
    o = dict(info)
    o["dty"] = t["f"][1]
    return ("s", (("b", n), opt(it, o, 1, ("b", n))))


# array by-value iterator: reuse 'si' over a private cell, yielding values
def n_arr_into_iter(it, args, st, info):
    v = args[0]
    if v[0] == "r":
        return NotImplemented
    if v[0] != "s":
        raise Unsupported("array into_iter of %s" % v[0])
    cell = it.gcell(("arr", v), v)
    r = ("r", ((1, (cell, (), (it.B.const(0, it.usz), it.B.const(len(v[1]), it.usz)))),))
    return ("si", r, it.B.const(0, it.usz), it.B.const(len(v[1]), it.usz))


def n_ai_next(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    pos = settled(B, pos, st.pc)
    ne = B.restrict(B.ult(pos, end), st.pc)
    val = it.load_ref(st, elem_ref(it, r, pos)) if ne else None
    npos, _ = B.add(pos, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, B.mux(ne, npos, pos), end))
    return opt(it, info, ne, val)


def n_ai_nth(it, args, st, info):
    B = it.B
    if not it.types[info["fn"]["targs"][0]].get("path", "").endswith("array::IntoIter"):
        return NotImplemented
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    pos = settled(B, pos, st.pc)
    left, _ = B.sub(end, pos)
    ne = B.restrict(B.ult(args[1][1], left), st.pc)
    at, _ = B.add(pos, args[1][1])
    npos, _ = B.add(at, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, B.mux(ne, npos, end), end))
    return opt(it, info, ne, it.load_ref(st, elem_ref(it, r, at)) if ne else None)


def n_ai_last(it, args, st, info):
    B = it.B
    if args[0] is None or args[0][0] != "si":
        return NotImplemented
    _, r, pos, end = args[0]
    at, _ = B.sub(end, B.const(1, it.usz))
    ne = B.restrict(B.ult(pos, end), st.pc)
    return opt(it, info, ne, it.load_ref(st, elem_ref(it, r, at)) if ne else None)


def n_ai_at(it, args, st, info):
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    at, _ = it.B.add(si[2], args[1][1])
    return it.load_ref(st, elem_ref(it, si[1], at))


def n_ai_next_back(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    end = settled(B, end, st.pc)
    ne = B.restrict(B.ult(pos, end), st.pc)
    nend, _ = B.sub(end, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, pos, B.mux(ne, nend, end)))
    return opt(it, info, ne, it.load_ref(st, elem_ref(it, r, nend)) if ne else None)


def n_si_nth_back(it, args, st, info):
    B = it.B
    si = it.load_ref(st, args[0])
    if si is None or si[0] != "si":
        return NotImplemented
    _, r, pos, end = si
    left, _ = B.sub(end, pos)
    ne = B.restrict(B.ult(args[1][1], left), st.pc)
    past, _ = B.sub(end, args[1][1])
    at, _ = B.sub(past, B.const(1, it.usz))
    it.store_ref(st, args[0], ("si", r, pos, B.mux(ne, at, pos)))
    return opt(it, info, ne, elem_ref(it, r, at))


def fixed_window(it, st, r):
    """cell elements of a mutable slice whose place and length are known: (references, values)"""
    n = it.B.is_const(slice_len(it, st, r)) if r[0] == "r" else None
    if n is None or n > 64:
        raise Unsupported("slice of unknown length")
    refs = [elem_ref(it, r, it.B.const(k, it.usz)) for k in range(n)]
    return refs, [it.load_ref(st, x) for x in refs]


def n_slice_reverse(it, args, st, info):
    refs, vs = fixed_window(it, st, args[0])
    for r, v in zip(refs, reversed(vs)):
        it.store_ref(st, r, v)
    return UNIT


def n_slice_fill(it, args, st, info):
    t = it.types[info["aty"][1]]
    if t["k"] not in ("uint", "int", "bool", "char"):
        return NotImplemented
    for r in fixed_window(it, st, args[0])[0]:
        it.store_ref(st, r, args[1])
    return UNIT


def n_slice_swap(it, args, st, info):
    B = it.B
    refs, vs = fixed_window(it, st, args[0])
    i, j = B.is_const(args[1][1]), B.is_const(args[2][1])
    if i is None or j is None or i >= len(vs) or j >= len(vs):
        return NotImplemented
    it.store_ref(st, refs[i], vs[j])
    it.store_ref(st, refs[j], vs[i])
    return UNIT


def n_slice_rotate(left):
    def nat(it, args, st, info):
        refs, vs = fixed_window(it, st, args[0])
        k = it.B.is_const(args[1][1])
        if k is None or k > len(vs):
            return NotImplemented
        if not left:
            k = len(vs) - k
        for r, v in zip(refs, vs[k:] + vs[:k]):
            it.store_ref(st, r, v)
        return UNIT
    return nat


def n_affix(tail):
    """does a text or byte slice start (end) with another one of known length?"""
    def nat(it, args, st, info):
        B = it.B
        a, b = args
        if a is None or b is None or a[0] != "r" or b[0] != "r" or any(t[2] is None for g, t in a[1] + b[1]):
            return NotImplemented
        pa, pb = slice_bytes(it, st, a), slice_bytes(it, st, b)
        if pa is None or pb is None:
            return NotImplemented
        acc = 0
        for ga, sa, na, aa in pa:
            for gb, sb, nb, ab in pb:
                g = B.AND(ga, gb)
                if g == 0:
                    continue
                ca, cb, n, L = B.is_const(sa), B.is_const(sb), B.is_const(nb), B.is_const(na)
                if ca is None or cb is None or n is None or tail and L is None:
                    return NotImplemented
                e = B.AND(g, B.NOT(B.ult(na, nb)))
                off = ca + (L - n if tail else 0)
                for k in range(n):
                    if e == 0:
                        break
                    if off + k >= len(aa):
                        e = 0
                        break
                    x, y = aa[off + k], ab[cb + k]
                    if x is None or y is None or x[0] != "b" or y[0] != "b":
                        return NotImplemented
                    e = B.AND(e, B.eq(x[1], y[1]))
                acc = B.OR(acc, e)
        return b1(acc)
    return nat


def n_array_map(it, args, st, info):
    v, f = args
    targs = info["fn"]["targs"]
    fty = [x for x in targs if it.types[x]["k"] in ("closure", "fndef")]
    if not fty or v[0] != "s":
        return NotImplemented
    fc = it.newcell(st, f) if it.types[fty[0]]["k"] == "closure" else f
    out = []
    for x in v[1]:
        out.append(call_closure(it, st, fc, fty[0], [x], info))
        if st.pc == 0:
            return None
    return ("s", tuple(out))


def n_from_fn(it, args, st, info):
    """the array of a function's values at 0, 1, .."""
    t = it.types[info["dty"]]
    fty = [x for x in info["fn"]["targs"] if it.types[x]["k"] in ("closure", "fndef")]
    if len(fty) != 1 or t["k"] != "array" or t["len"] > 64:
        return NotImplemented
    fc = it.newcell(st, args[0]) if it.types[fty[0]]["k"] == "closure" else args[0]
    out = []
    for k in range(t["len"]):
        out.append(call_closure(it, st, fc, fty[0], [("b", it.B.const(k, it.usz))], info))
        if st.pc == 0:
            return None
    return ("s", tuple(out))


def n_as_ptr(it, args, st, info):
    r = args[0]
    if r[0] != "r":
        return NotImplemented
    out = []
    for g, t in r[1]:
        base = t[2][0] if t[2] is not None else it.B.const(0, it.usz)
        out.append((g, (t[0], t[1] + (("i", base),), None)))
    return ("r", tuple(out))


def n_slice_len(it, args, st, info):
    return ("b", slice_len(it, st, args[0])) if args[0][0] == "r" else ("b", it.B.word(("len", args[0]), it.usz))


# ---------------------------------------------------------------- strings
def slice_bytes(it, st, r):
    """[(guard, start, len, array value)]"""
    out = []
    for g, t in r[1]:
        v = it.load_target(st, (t[0], t[1], None))
        if v is None or v[0] != "s" or t[2] is None:
            return None
        out.append((g, t[2][0], t[2][1], v[1]))
    return out


def utf8_valid(it, bs):
    """exact BDD of 'this byte sequence is valid UTF-8' (DFA run backwards)"""
    B = it.B
    # states: 0 accept, then remaining-continuation states
    # 1: one more 80..BF; 2: two more; 3: three more
    # 4: E0 (A0..BF then 1), 5: ED (80..9F then 1), 6: F0 (90..BF then 2), 7: F4 (80..8F then 2)
    nxt = [1] + [0] * 7

    def rng(b, lo, hi):
        c = lambda v: B.const(v, 8)
        return B.AND(B.NOT(B.ult(b, c(lo))), B.NOT(B.ult(c(hi), b)))

    for b in reversed(bs):
        cont = rng(b, 0x80, 0xBF)
        cur = [0] * 8
        a = B.AND(rng(b, 0, 0x7F), nxt[0])
        for lo, hi, s in (
            (0xC2, 0xDF, 1),
            (0xE0, 0xE0, 4),
            (0xE1, 0xEC, 2),
            (0xED, 0xED, 5),
            (0xEE, 0xEF, 2),
            (0xF0, 0xF0, 6),
            (0xF1, 0xF3, 3),
            (0xF4, 0xF4, 7),
        ):
            a = B.OR(a, B.AND(rng(b, lo, hi), nxt[s]))
        cur[0] = a
        cur[1] = B.AND(cont, nxt[0])
        cur[2] = B.AND(cont, nxt[1])
        cur[3] = B.AND(cont, nxt[2])
        cur[4] = B.AND(rng(b, 0xA0, 0xBF), nxt[1])
        cur[5] = B.AND(rng(b, 0x80, 0x9F), nxt[1])
        cur[6] = B.AND(rng(b, 0x90, 0xBF), nxt[2])
        cur[7] = B.AND(rng(b, 0x80, 0x8F), nxt[2])
        nxt = cur
    return nxt[0]


def utf8_guard(it, st, r):
    B = it.B
    acc = 0
    parts = slice_bytes(it, st, r)
    if parts is None:
        return None
    for g, s, n, arr in parts:
        s = B.is_const(s)
        if s is None:
            return None
        lens = distinct_consts(it, n, B.AND(g, st.pc), 80)
        if lens is None:
            return None
        for gl, L in lens:
            v = utf8_valid(it, [x[1] for x in arr[s : s + L]])
            acc = B.OR(acc, B.AND(gl, v))
    return B.restrict(acc, st.pc)


def n_from_utf8(it, args, st, info):
    B = it.B
    r = args[0]
    ok = utf8_guard(it, st, r) if r[0] == "r" else None
    if ok is None:
        ok = B.var(("utf8ok", it.canon(r, st)), 0)
    ty = info["dty"]
    t = it.types[ty]
    alts = []
    for i, v in enumerate(t["v"]):
        if v["n"] == "Ok" and ok:
            alts.append((i, ok, (r,)))
        elif v["n"] == "Err" and ok != 1:
            alts.append((i, B.NOT(ok), (("o", ("utf8err",)),)))
    return ("e", ty, tuple(alts))


def n_split_next(it, args, st, info):
    raise Unsupported("split next")


def n_slice_split(it, args, st, info):
    """[T]::split(pred): remember slice and predicate"""
    r, f = args
    fty = [x for x in info["fn"]["targs"] if it.types[x]["k"] in ("closure", "fndef")][0]
    return ("s", (r, f, ("tyref", fty), b1(0)))


def first_hit(it, st, r, test):
    """for a slice with constant start and length: list of guards 'first hit at k', and none"""
    B = it.B
    parts = slice_bytes(it, st, r)
    if parts is None or len(parts) != 1:
        raise Unsupported("search in symbolic slice")
    g, s, n, arr = parts[0]
    s, n = B.is_const(s), B.is_const(n)
    if s is None or n is None:
        raise Unsupported("search in symbolic-length slice")
    out = []
    rest = 1
    for k in range(n):
        h = test(arr[s + k])
        out.append(B.AND(rest, h))
        rest = B.AND(rest, B.NOT(h))
    return s, n, out, rest


def n_split_iter_next(it, args, st, info):
    B = it.B
    v = it.load_ref(st, args[0])
    if v[0] != "s" or len(v[1]) != 4 or v[1][2][0] != "tyref":
        return NotImplemented
    r, f, (_, fty), fin = v[1]
    c = B.is_const(fin[1])
    if c is None:
        raise Unsupported("split state")
    if c == 1:
        return opt(it, info, 0, None)

    def test(x):
        cell = it.newcell(st, x)
        p = call_closure(it, st, it.newcell(st, f), fty, [cell], info)
        return p[1][0]

    s, n, hits, rest = first_hit(it, st, r, test)
    # first piece only (further pieces would need a symbolic start)
    ln = B.const(n, it.usz)
    for k in range(n - 1, -1, -1):
        ln = B.mux(hits[k], B.const(k, it.usz), ln)
    t = r[1][0][1]
    piece = ("r", ((1, (t[0], t[1], (t[2][0], ln))),))
    it.store_ref(st, args[0], ("o", ("split-rest", r)))
    return opt(it, info, 1, piece)


def n_trim(it, args, st, info):
    """str::trim: constants are trimmed, anything else stays a term over its exact bytes"""
    import text
    r = args[0]
    if r[0] != "r":
        return NotImplemented
    out = []
    for g, t in r[1]:
        T = text.target_text(it, st, t)
        if T[0] == "const":
            out += [(g, x) for _, x in it.mkstr(list(T[1].decode("utf8", "replace").strip().encode()))[1]]
            continue
        cell = it.gcell(("term", "trim", T), ("o", ("trim", T)))
        out.append((g, (cell, (), (it.B.const(0, it.usz), it.B.word(("len", "trim", T), it.usz)))))
    return ("r", tuple(out))


def n_str_eq(it, args, st, info):
    """<str as PartialEq>::eq / slice eq on bytes"""
    B = it.B
    a, b = args
    while a[0] == "r" and a[1][0][1][2] is None:
        a = it.load_ref(st, a)
    while b[0] == "r" and b[1][0][1][2] is None:
        b = it.load_ref(st, b)
    return b1(bytes_eq(it, st, a, b))


def bytes_eq(it, st, a, b):
    B = it.B
    pa, pb = (slice_bytes(it, st, x) if x[0] == "r" else None for x in (a, b))
    if pa is None or pb is None:
        if it.canon(a, st) == it.canon(b, st):
            return 1
        return B.var(("streq", it.canon(a, st), it.canon(b, st)), 0)
    acc = 0
    for ga, sa, na, aa in pa:
        for gb, sb, nb, ab in pb:
            g = B.AND(ga, gb)
            if g == 0:
                continue
            ca, cb = B.is_const(sa), B.is_const(sb)
            if ca is None or cb is None:
                return B.var(("streq", it.canon(a, st), it.canon(b, st)), 0)
            leq = B.eq(na, nb)
            if leq == 0:
                continue
            # a constant common length is required
            ln = B.is_const(na)
            if ln is None:
                ln = B.is_const(nb)
            if ln is None:
                lens = distinct_consts(it, na, B.AND(g, leq), 80)
                if lens is None:
                    return B.var(("streq", it.canon(a, st), it.canon(b, st)), 0)
            else:
                lens = [(B.AND(g, leq), ln)]
            for gl, L in lens:
                e = gl
                for k in range(L):
                    if ca + k >= len(aa) or cb + k >= len(ab):
                        e = 0
                        break
                    e = B.AND(e, B.eq(aa[ca + k][1], ab[cb + k][1]))
                    if e == 0:
                        break
                acc = B.OR(acc, e)
    return acc


def n_raw_eq(it, args, st, info):
    a = it.load_ref(st, args[0])
    b = it.load_ref(st, args[1])
    fa, fb = it.flatten(a), it.flatten(b)
    if fa is None or fb is None:
        raise Unsupported("raw_eq")
    return b1(it.B.eq(fa, fb))


# ---------------------------------------------------------------- intrinsics
def minmax(low):
    def nat(it, args, st, info):
        o = it.binop(st, "Cmp", args[0], args[1], info["aty"][0])
        return it.mux(o[1] if low else o[3], args[0], args[1])

    return nat


def wrapping(op):
    def nat(it, args, st, info):
        sg = it.signed(info["aty"][0])
        a, b = args[0][1], args[1][1]
        if op == "add":
            return ("b", it.B.add(a, b)[0])
        if op == "sub":
            return ("b", it.B.sub(a, b)[0])
        return ("b", it.mul(a, b, sg)[0])

    return nat


def saturating(op):
    def nat(it, args, st, info):
        if it.signed(info["aty"][0]):
            return NotImplemented
        B = it.B
        a, b = args[0][1], args[1][1]
        if op == "add":
            r, c = B.add(a, b)
            return ("b", B.mux(c, B.const((1 << len(a)) - 1, len(a)), r))
        r, c = B.sub(a, b)
        return ("b", B.mux(c, B.const(0, len(a)), r))

    return nat


def n_size_of(it, args, st, info):
    t = info["fn"]["targs"][0]
    s = size_of(it, t)
    if s is None:
        raise Unsupported("size_of " + it.types[t]["name"])
    return it.const_int(s, it.usz)


def size_of(it, ty):
    t = it.types[ty]
    w = it.width(ty)
    if w is not None:
        return max(1, w // 8)
    if t["k"] == "array":
        s = size_of(it, t["of"])
        return None if s is None else s * t["len"]
    if t["k"] == "adt" and t.get("size", -1) >= 0:
        return t["size"]
    if t["k"] in ("ref", "ptr"):
        return 16 if it.types[t["to"]]["k"] in ("str", "slice", "dyn") else 8
    if t["k"] == "tuple" and not t["f"]:
        return 0
    return None


def n_bswap(it, args, st, info):
    x = args[0][1]
    out = ()
    for i in range(len(x) - 8, -1, -8):
        out += x[i : i + 8]
    return ("b", out)


def n_ctpop(it, args, st, info):
    B = it.B
    w = 32
    acc = B.const(0, w)
    for b in args[0][1]:
        acc, _ = B.add(acc, (b,) + (0,) * (w - 1))
    return ("b", acc)


def n_cttz(it, args, st, info):
    B = it.B
    x = args[0][1]
    r = B.const(len(x), 32)
    for i in range(len(x) - 1, -1, -1):
        r = B.mux(x[i], B.const(i, 32), r)
    return ("b", r)


def n_ctlz(it, args, st, info):
    B = it.B
    x = args[0][1]
    r = B.const(len(x), 32)
    for i in range(len(x)):
        r = B.mux(x[i], B.const(len(x) - 1 - i, 32), r)
    return ("b", r)


def n_rot(left):
    def nat(it, args, st, info):
        x = args[0][1]
        c = it.B.is_const(args[1][1])
        if c is None:
            raise Unsupported("symbolic rotate")
        w = len(x)
        c %= w
        if left:
            c = (w - c) % w
        return ("b", x[c:] + x[:c])

    return nat


def n_discriminant_value(it, args, st, info):
    r = info["aty"][0]
    ty = it.types[r]["to"]
    v = it.load_ref(st, args[0])
    d = it.discr(v, ty)
    w = it.width(info["dty"])
    return ("b", it.resize(d[1], w, False)) if w else d


def n_transmute(it, args, st, info):
    return it.transmute(st, args[0], info["aty"][0], info["dty"])


def ident(it, args, st, info):
    return args[0]


def unit(it, args, st, info):
    return UNIT


def n_assume(it, args, st, info):
    return UNIT


def n_select(it, args, st, info):
    return it.mux(args[0][1][0], args[1], args[2])


def n_three_way(it, args, st, info):
    o = it.binop(st, "Cmp", args[0], args[1], info["aty"][0])
    return ordval(it, o, info["dty"])


def ordval(it, o, ty):
    # Ordering: Less, Equal, Greater in declaration order
    return ("e", ty, tuple((i, g, ()) for i, g in enumerate(o[1:]) if g))


def n_read(it, args, st, info):
    return it.load_ref(st, args[0])


def n_write(it, args, st, info):
    it.store_ref(st, args[0], args[1])
    return UNIT


def n_mem_replace(it, args, st, info):
    v = it.load_ref(st, args[0])
    it.store_ref(st, args[0], args[1])
    return v


def n_mem_swap(it, args, st, info):
    a = it.load_ref(st, args[0])
    b = it.load_ref(st, args[1])
    it.store_ref(st, args[0], b)
    it.store_ref(st, args[1], a)
    return UNIT


def n_mem_take(it, args, st, info):
    return NotImplemented


def n_exact_div(it, args, st, info):
    return ("b", it.divrem("Div", args[0][1], args[1][1], it.signed(info["aty"][0])))


def n_unlikely(it, args, st, info):
    return args[0]


# ---------------------------------------------------------------- formatting
def n_debug_new(kind):
    def nat(it, args, st, info):
        name = args[1] if len(args) > 1 else None
        it.event(kind="fmt_new", what=kind, name=lit(it, st, name), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
        return ("o", ("dbg", kind))

    return nat


def lit(it, st, r):
    """constant string behind r, or None"""
    try:
        if r is None or r[0] != "r" or len(r[1]) != 1:
            return None
        t = r[1][0][1]
        if t[2] is None:
            return lit(it, st, it.load_ref(st, r))
        v = it.load_target(st, (t[0], t[1], None))
        s, n = it.B.is_const(t[2][0]), it.B.is_const(t[2][1])
        if v[0] != "s" or s is None or n is None:
            return None
        return bytes(it.B.is_const(x[1]) for x in v[1][s : s + n]).decode("utf8", "replace")
    except Exception:
        return None


def n_debug_field(it, args, st, info):
    it.event(kind="fmt_field", name=lit(it, st, args[1]), val=args[2], ty=info["aty"][2], st=dict(st.c), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    return args[0]


def n_debug_entry(it, args, st, info):
    it.event(kind="fmt_entry", val=args[1], st=dict(st.c), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    return args[0]


def n_debug_derived(it, args, st, info):
    """Formatter::debug_{struct,tuple}_fieldN_finish(f, name, (field, value)*)"""
    struct = "debug_struct" in info["fn"]["path"]
    if info["fn"]["path"].endswith("fields_finish"):
        vals = [(v, None) for v in it.load_ref_slice(st, args[-1])]
    else:
        vals = list(zip(args[2:], info["aty"][2:]))
    text = lit(it, st, args[1])
    # struct: type and field names joined by spaces in one literal
    names = text.split(" ") if struct and text is not None else [text] + [None] * len(vals)
    it.event(kind="fmt_new", what="derived", name=names[0], pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    for n, (v, ty) in zip(names[1:] + [None] * len(vals), vals):
        it.event(kind="fmt_field", name=n, val=v, ty=ty, st=dict(st.c), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    return fmt_result(it, info)


def fmt_result(it, info):
    B = it.B
    ok = B.var(("fmt_ok",), 0)
    ty = info["dty"]
    return ("e", ty, ((0, ok, (UNIT,)), (1, B.NOT(ok), (UNIT,))))


def n_argument(kind):
    """fmt::Argument::new_*(&x): which value is rendered and how"""
    def nat(it, args, st, info):
        return ("o", ("fmtarg", kind, args[0], info["aty"][0]))

    return nat


def const_bytes(it, st, r):
    if r is None or r[0] != "r" or len(r[1]) != 1:
        return None
    t = r[1][0][1]
    v = it.load_target(st, (t[0], t[1], None))
    if v is None or v[0] != "s":
        return None
    out = [it.B.is_const(x[1]) if x and x[0] == "b" else None for x in v[1]]
    return None if None in out else bytes(out)


def n_arguments(it, args, st, info):
    """fmt::Arguments::new(template, &[Argument]) / from_str(text)"""
    if len(args) == 1:
        return ("o", ("fmtargs", lit(it, st, args[0]), ()))
    v = it.load_ref(st, args[1])
    if v is None or v[0] != "s":
        return NotImplemented
    return ("o", ("fmtargs", const_bytes(it, st, args[0]), tuple(v[1])))


def n_fmt_any(it, args, st, info):
    it.event(kind="fmt_call", path=info["fn"].get("rpath", info["fn"]["path"]), args=tuple(args), st=dict(st.c), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    t = it.types[info["dty"]]
    if t["k"] == "adt" and t["path"].endswith("Result"):
        return fmt_result(it, info)
    return it.sym(info["dty"], ("fmt", info["fn"]["path"], tuple(it.canon(a, st) for a in args)))


def n_fmt_forward(it, args, st, info):
    """<core type as Display/Debug/..>::fmt(x, f) called directly"""
    i = info["fn"].get("i")
    if i is not None and it.p.fns[i]["local"]:
        return NotImplemented
    if info["fn"].get("rpath") is None and i is None:
        pass
    kind = {"Display": "display", "Debug": "debug", "LowerHex": "lower_hex", "UpperHex": "upper_hex", "Binary": "binary", "Octal": "octal",
            "Pointer": "pointer"}.get(info["fn"]["path"].split("::")[-2])
    if kind is None:
        return NotImplemented
    it.event(kind="fmt_call", path="forward", args=(args[1], ("o", ("fmtarg", kind, args[0], info["aty"][0]))), st=dict(st.c), pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
    return fmt_result(it, info)


def install(it):
    N = it.natives
    for k in ("Display", "Debug", "LowerHex", "UpperHex", "Binary", "Octal", "Pointer"):
        N["core::fmt::%s::fmt" % k] = n_fmt_forward
        N["std::fmt::%s::fmt" % k] = n_fmt_forward
    N["CpuIdReader::cpuid2"] = n_cpuid2
    N["CpuIdReader::cpuid1"] = n_cpuid1
    for m in ("core::core_arch::x86::cpuid::", "core::core_arch::x86::", "core::arch::x86_64::", "core::arch::x86::", "core::core_arch::x86::cpuid::"):
        N[m + "__cpuid_count"] = n_hw_cpuid_count
        N[m + "__cpuid"] = n_hw_cpuid
    N["core::clone::Clone::clone"] = n_clone
    N["core::cmp::PartialEq::eq"] = n_eq
    N["core::cmp::PartialEq::ne"] = n_eq
    for k in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
        N["core::ops::" + k] = n_fn_call
        N["core::ops::function::" + k] = n_fn_call
    N["core::slice::from_raw_parts"] = n_from_raw_parts
    N["core::slice::<impl [T]>::iter"] = n_slice_iter
    N["core::slice::iter::Iter::<'a, T>::new"] = n_slice_iter
    SI = "<core::slice::Iter<'a, T> as core::iter::Iterator>::"
    N[SI + "next"] = n_si_next
    N["<core::slice::Iter<'a, T> as core::iter::DoubleEndedIterator>::next_back"] = n_si_next_back
    SM = "<core::slice::IterMut<'a, T> as core::iter::Iterator>::"
    N["core::slice::<impl [T]>::iter_mut"] = n_slice_iter
    N["core::slice::iter::IterMut::<'a, T>::new"] = n_slice_iter
    N["<core::slice::IterMut<'a, T> as core::iter::DoubleEndedIterator>::next_back"] = n_si_next_back
    N["<core::slice::IterMut<'_, T> as core::iter::ExactSizeIterator>::len"] = n_si_len
    N["<core::slice::Iter<'_, T> as core::iter::ExactSizeIterator>::is_empty"] = n_si_is_empty
    N["core::slice::<impl [T]>::contains"] = n_contains
    for S in (SI, SM):
        N[S + "next"] = n_si_next
        N[S + "nth"] = n_si_nth
        N[S + "last"] = n_si_last
        N[S + "count"] = n_si_count
        N[S + "size_hint"] = n_si_size_hint
        for k in ("any", "all", "position", "find", "fold", "for_each", "find_map"):
            N[S + k] = si_loop(k)
    N["<core::slice::Iter<'_, T> as core::iter::ExactSizeIterator>::len"] = n_si_len
    for p in (
        "core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter",
        "<[T; N] as core::iter::IntoIterator>::into_iter",
    ):
        N[p] = n_arr_into_iter
    N["core::hint::select_unpredictable"] = n_select
    AI = "<core::array::IntoIter<T, N> as core::iter::Iterator>::"
    N[AI + "next"] = n_ai_next
    N[AI + "fold"] = si_loop("fold", True)
    N[AI + "try_fold"] = n_ai_try_fold(False)
    N["core::iter::Iterator::nth"] = n_ai_nth
    AB = "<core::array::IntoIter<T, N> as core::iter::DoubleEndedIterator>::"
    N[AB + "try_rfold"] = n_ai_try_fold(True)
    N[AB + "rfold"] = si_loop("fold", True, True)
    for S in ("Iter<'a, T>", "IterMut<'a, T>"):
        N["<core::slice::%s as core::iter::Iterator>::rposition" % S] = si_loop("position", False, True)
    N["core::iter::DoubleEndedIterator::rfind"] = si_loop("find", None, True)
    for k, tail in (("starts_with", False), ("ends_with", True)):
        N["core::slice::<impl [T]>::" + k] = n_affix(tail)
        N["core::str::<impl str>::" + k] = n_affix(tail)
    N["core::slice::<impl [T]>::reverse"] = n_slice_reverse
    N["core::slice::<impl [T]>::fill"] = n_slice_fill
    N["core::slice::<impl [T]>::swap"] = n_slice_swap
    N["core::slice::<impl [T]>::rotate_left"] = n_slice_rotate(True)
    N["core::slice::<impl [T]>::rotate_right"] = n_slice_rotate(False)
    N[AI + "last"] = n_ai_last
    N[AI + "__iterator_get_unchecked"] = n_ai_at
    N["<core::array::IntoIter<T, N> as core::iter::DoubleEndedIterator>::next_back"] = n_ai_next_back
    for S in ("Iter", "IterMut"):
        N["<core::slice::%s<'a, T> as core::iter::DoubleEndedIterator>::nth_back" % S] = n_si_nth_back
    N[AI + "count"] = n_si_count
    N[AI + "size_hint"] = n_si_size_hint
    N["<core::array::IntoIter<T, N> as core::iter::ExactSizeIterator>::len"] = n_si_len
    for k in ("any", "all", "position", "find", "for_each", "find_map"):
        N["core::iter::Iterator::" + k] = si_loop(k, None)
    N["core::array::<impl [T; N]>::map"] = n_array_map
    N["core::array::from_fn"] = n_from_fn
    N["core::slice::<impl [T]>::as_ptr"] = n_as_ptr
    N["core::slice::<impl [T]>::len"] = n_slice_len
    N["core::str::<impl str>::len"] = n_slice_len
    N["core::str::from_utf8"] = n_from_utf8
    N["core::str::converts::from_utf8"] = n_from_utf8
    N["core::str::<impl str>::as_bytes"] = ident
    N["core::str::converts::from_utf8_unchecked"] = ident
    N["core::str::from_utf8_unchecked"] = ident
    N["core::slice::<impl [T]>::split"] = n_slice_split
    N["<core::slice::Split<'a, T, P> as core::iter::Iterator>::next"] = n_split_iter_next
    N["core::str::<impl str>::trim"] = n_trim
    for p in (
        "<str as core::cmp::PartialEq>::eq",
        "core::str::traits::<impl core::cmp::PartialEq for str>::eq",
    ):
        N[p] = n_str_eq
    I = "core::intrinsics::"
    for op in ("add", "sub", "mul"):
        N[I + "wrapping_" + op] = wrapping(op)
        N[I + "unchecked_" + op] = wrapping(op)
    N[I + "saturating_add"] = saturating("add")
    N[I + "saturating_sub"] = saturating("sub")
    N[I + "size_of"] = n_size_of
    N["core::mem::size_of"] = n_size_of
    N[I + "bswap"] = n_bswap
    N[I + "bitreverse"] = lambda it, a, st, info: ("b", tuple(reversed(a[0][1])))
    N[I + "integer_min"] = minmax(True)
    N[I + "integer_max"] = minmax(False)
    N[I + "ctpop"] = n_ctpop
    N[I + "cttz"] = n_cttz
    N[I + "ctlz"] = n_ctlz
    N[I + "cttz_nonzero"] = n_cttz
    N[I + "ctlz_nonzero"] = n_ctlz
    N[I + "rotate_left"] = n_rot(True)
    N[I + "rotate_right"] = n_rot(False)
    N[I + "discriminant_value"] = n_discriminant_value
    N[I + "transmute"] = n_transmute
    N[I + "transmute_unchecked"] = n_transmute
    N[I + "likely"] = ident
    N[I + "is_val_statically_known"] = lambda it, a, st, info: b1(0)
    N[I + "unlikely"] = ident
    N[I + "black_box"] = ident
    N["core::hint::black_box"] = ident
    N[I + "cold_path"] = unit
    N[I + "assume"] = n_assume
    N[I + "assert_inhabited"] = unit
    N[I + "select_unpredictable"] = n_select
    N[I + "three_way_compare"] = n_three_way
    N[I + "read_via_copy"] = n_read
    N[I + "write_via_move"] = n_write
    N[I + "raw_eq"] = n_raw_eq
    N[I + "exact_div"] = n_exact_div
    N["core::mem::replace"] = n_mem_replace
    N["core::mem::swap"] = n_mem_swap
    F = "core::fmt::Formatter::<'a>::"
    for k in ("debug_struct", "debug_list", "debug_tuple", "debug_set", "debug_map"):
        N[F + k] = n_debug_new(k)
    for n in range(1, 6):
        N[F + "debug_struct_field%d_finish" % n] = n_debug_derived
        N[F + "debug_tuple_field%d_finish" % n] = n_debug_derived
    N[F + "debug_struct_fields_finish"] = n_debug_derived
    N[F + "debug_tuple_fields_finish"] = n_debug_derived
    for k in ("display", "debug", "lower_hex", "upper_hex", "binary", "octal", "pointer", "lower_exp", "upper_exp", "debug_noop"):
        N["core::fmt::rt::Argument::<'_>::new_" + k] = n_argument(k)
    N["core::fmt::Arguments::<'a>::new"] = n_arguments
    N["core::fmt::Arguments::<'a>::from_str"] = n_arguments
    N["core::fmt::Arguments::<'a>::from_str_nonconst"] = n_arguments
    N["core::fmt::DebugStruct::<'a, 'b>::field"] = n_debug_field
    N["core::fmt::DebugTuple::<'a, 'b>::field"] = lambda it, a, st, info: n_debug_field(it, [a[0], None, a[1]], st, dict(info, aty=[info["aty"][0], 0, info["aty"][1]]))
    N["core::fmt::DebugList::<'a, 'b>::entry"] = n_debug_entry
    N["core::fmt::DebugSet::<'a, 'b>::entry"] = n_debug_entry
    for p in (
        "core::fmt::DebugStruct::<'a, 'b>::finish",
        "core::fmt::DebugTuple::<'a, 'b>::finish",
        "core::fmt::DebugList::<'a, 'b>::finish",
        "core::fmt::DebugStruct::<'a, 'b>::finish_non_exhaustive",
        F + "write_str",
        F + "write_fmt",
        F + "pad",
        F + "debug_c_like_enum_write_str",
    ):
        N[p] = n_fmt_any
