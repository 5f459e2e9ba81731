"""C27: the command-line program prints, for this machine, what the chosen format names"""
from absint import St, UNIT
from absint import Unsupported
from model import Missing
import natives
import printer

NAMES = {"Raw": "raw", "Cli": "cli"}
SHOWS = {"Raw": "display::raw", "Cli": "display::markdown"}
DEFAULT = "cli"


def c27(ctx):
    ctx.explanation = (
        "Value flow over MIR of the program src/bin/cpuid.rs. main: with the parsed options arbitrary, each of display::raw / display::markdown is called "
        "once exactly when its format was chosen, on the native CPUID source. Format names: the parser's name table, FromStr and the default are followed "
        "as functions from text to format.")
    ctx.assumptions += ["clap gives the option the value whose name or alias was typed, and the default value when none was"]
    from absint import Prog
    if ("p", "bin") not in ctx._models:
        ctx._models[("p", "bin")] = Prog(ctx.dump_path("cli", "cpuid"))
    p = ctx._models[("p", "bin")]
    main(ctx, p)
    names(ctx, p)
    parse(ctx, p)
    default(ctx, p)
    ctx.floor("outputs", 2)
    ctx.floor("names", 2)


PARSE = ("parse", "try_parse", "parse_from", "try_parse_from")
ARGS = ("std::env::ArgsOs", "std::env::Args")


class Tool(printer.Printer):
    def __init__(self, p):
        super().__init__(p)
        self.api = {}
        self.calls = 0
        for k in ("std::sync::OnceLock::<T>::get_or_init", "core::cell::OnceCell::<T>::get_or_init", "std::sync::LazyLock::<T, F>::force"):
            self.it.natives[k] = self.once
        for k in ("std::process::exit",):
            self.it.natives[k] = self.leave

    def once(self, it, args, st, info):
        """a value computed at first use"""
        t = self.types[info["fn"]["targs"][-1]]
        if t["k"] != "closure":
            raise Unsupported("initialiser " + t["name"])
        v = it.call_values(st, [(1, {"path": t["path"], "closure": t["i"]})], [], info["aty"], info["dty"], info["ln"], info["f"])
        return it.newcell(st, v)

    def leave(self, it, args, st, info):
        it.event(kind="leave", pc=st.pc, fn=info["f"]["path"], ln=info["ln"])
        st.pc = 0
        return None

    def foreign(self, fn, args, aty, dty, st, ln, f):
        it = self.it
        path = fn.get("rpath", fn["path"])
        crate = fn.get("crate")
        at = "%s:%s" % (f["path"], ln)
        if crate in ("core", "std", "alloc"):
            return NotImplemented
        last = path.split("::")[-1]
        if crate == "raw_cpuid":
            v = it.sym(dty, ("call", path, tuple(it.canon(a, st) for a in args)))
            it.event(kind="library", path=path, args=list(args), aty=list(aty), pc=st.pc, at=at, out=v)
            return v
        it.event(kind="clap", path=path, last=last, args=list(args), aty=list(aty), dty=dty, pc=st.pc, at=at, st=dict(st.c))
        if path.endswith("PossibleValue::new"):
            return ("o", ("names", (texts(it, st, args[0]),)))
        if "PossibleValue::" in path and args and args[0] is not None and args[0][0] == "o" and args[0][1][0] == "names":
            if last == "alias":
                return ("o", ("names", args[0][1][1] + (texts(it, st, args[1]),)))
            if last == "aliases":
                return ("o", ("names", args[0][1][1] + tuple(texts(it, st, x) for x in elements(it, st, args[1]))))
            return args[0]      # hide, help
        if path.endswith("PossibleValue::get_name"):
            v = printer.deref(it, st, args[0])
            if v is not None and v[0] == "o" and v[1][0] == "names":
                return it.mkstr((v[1][1][0] or "").encode())
        if last == "exit" and "Error" in path:
            st.pc = 0       # reports the mistake in the arguments and ends the program
            return None
        if last not in PARSE:
            self.calls += 1
            return ("o", ("clap", self.calls))
        return it.sym(dty, ("call", path, tuple(it.canon(a, st) for a in args)))


def texts(it, st, v):
    b = printer.lit_bytes(it, st, printer.deref(it, st, v))
    return None if b is None else b.decode("utf-8", "replace")


def elements(it, st, v):
    if v is not None and v[0] == "s":
        return v[1]
    return it.load_ref_slice(st, v)


def formats(m):
    for i, t in enumerate(m.types):
        if t["k"] == "adt" and t.get("kind") == "enum" and sorted(x["n"] for x in t["v"]) == sorted(NAMES) and not t["path"].startswith(("std", "core")):
            return i, {x["n"]: k for k, x in enumerate(t["v"])}
    raise Missing("the type of the output format")


def root(p, name, tr=None):
    rs = [r for r in p.roots if r["name"] == name and (r.get("trait") or "").split("::")[-1] == (tr or "")]
    if not rs:
        raise Missing("%s of the command-line program" % name)
    return rs[0]


def main(ctx, p):
    m = Tool(p)
    B, it = m.B, m.it
    r0 = root(p, "main")
    r = m.run(r0, [], St({}, 1))
    if r.err:
        ctx.bad("main", "the program cannot be analysed: %s" % r.err, at=r0["span"])
        return
    ty, vs = formats(m)
    parse = [e for e in r.events if e["kind"] == "clap" and e["last"] in PARSE]
    if len(parse) == 1 and any(m.types[t]["name"] not in ARGS for t in parse[0]["aty"]):
        ctx.bad("main:arguments", "the program reads its options from something other than its arguments", at=parse[0]["at"])
        return
    if len(parse) != 1 or parse[0]["pc"] != 1:
        ctx.bad("main:options", "the program does not read its options once", at=r0["span"])
        return
    # the chosen format: the one value of that type the options hold
    chosen = {}
    for n, k in vs.items():
        chosen[n] = None
    opt = it.sym(parse[0]["dty"], ("call", parse[0]["path"], tuple(it.canon(a, St(parse[0]["st"], 1)) for a in parse[0]["args"])))
    valid, oty = 1, parse[0]["dty"]
    if opt[0] == "e" and m.types[oty].get("path", "").endswith("result::Result"):
        good = [(g, fs[0]) for k, g, fs in opt[2] if m.types[oty]["v"][k]["n"] == "Ok"]
        oty = m.types[oty]["v"][0]["f"][0][1]
        valid, opt = good[0]
        told = 0
        for e in r.events:
            if e["kind"] == "clap" and e["last"] == "exit" and "Error" in e["path"]:
                told = B.OR(told, e["pc"])
        if told != B.NOT(valid):
            ctx.bad("main:mistake", "the program does not report a mistake in its arguments exactly when there is one", at=r0["span"])
        else:
            ctx.good()
    fmt = find(m, oty, opt, ty)
    if fmt is None:
        raise Missing("the chosen format in the options")
    for var, g, _ in fmt[2]:
        for n, k in vs.items():
            if k == var:
                chosen[n] = B.AND(valid, g)
    done = {n: 0 for n in vs}
    for e in r.events:
        if e["kind"] == "leave" or e["kind"] == "assert" and e["pc"]:
            ctx.bad("main:exit", "the program may end without printing", at=e.get("at") or "%s:%s" % (e.get("fn"), e.get("ln")))
        if e["kind"] == "unknown" and ("print" in e["path"] or "io::" in e["path"]):
            ctx.bad("main:output", "the program prints something else (%s)" % e["path"], at="%s:%s" % (e["fn"], e["ln"]))
        if e["kind"] != "library":
            continue
        hit = [n for n, w in SHOWS.items() if e["path"].split("<")[0].rstrip(":").endswith(w)]
        if not hit:
            if not maker(e["path"]):
                ctx.bad("main:library", "the program calls %s" % e["path"], at=e["at"])
            continue
        n = hit[0]
        ctx.count("outputs")
        if B.AND(done[n], e["pc"]):
            ctx.bad("main:twice:" + n, "%s is printed twice" % SHOWS[n], at=e["at"])
        done[n] = B.OR(done[n], e["pc"])
        wrong = not_native(p, e["aty"][0])
        if wrong:
            ctx.bad("main:source:" + n, "%s is given %s, not the native CPUID source%s" % (SHOWS[n], m.types[e["aty"][0]]["name"], wrong), at=e["at"])
        else:
            ctx.good()
    for n in vs:
        if done[n] != chosen[n]:
            ctx.bad("main:" + n, "%s is not printed exactly when the %s format is chosen" % (SHOWS[n], NAMES[n]), at=r0["span"])
        else:
            ctx.good()
            ctx.sample("%s called iff the options say %s" % (SHOWS[n], n))


NATIVE = ("CpuIdReaderNative", "native_cpuid::CpuIdReaderNative")


def not_native(p, ty):
    """"" when reading a value of this type is reading the processor: the crate's native source, or the program's own
    type, closure or function that hands every leaf and sub-leaf on to it and its answer back; else what is wrong"""
    t = p.types[ty]
    if t["name"].replace("raw_cpuid::", "") in NATIVE:
        return ""
    if t["k"] == "adt" and t["path"] == "raw_cpuid::CpuId" and len(t["targs"]) == 1:
        return not_native(p, t["targs"][0])
    if t["k"] == "closure" and not t["f"]:
        return forwards(p, 2, lambda m, st, a, out: m.it.call_values(st, [(1, {"path": t["path"], "closure": t["i"]})], a, None, out, "?", {"path": t["path"]}))
    if t["k"] == "fndef":
        return forwards(p, 2, lambda m, st, a, out: m.it.call_values(st, [(1, t["fn"])], a, None, out, "?", {"path": t["path"]}))
    own = [r for r in p.roots if (r.get("trait") or "").split("::")[-1] == "CpuIdReader" and r.get("self") == t["name"]]
    if "cpuid2" not in [r["name"] for r in own]:
        return " (of unknown behaviour)"
    for r in own:
        k = {"cpuid1": 1, "cpuid2": 2}.get(r["name"])
        w = " (its %s is unknown)" % r["name"] if k is None else forwards(p, k, lambda m, st, a, out: m.it.run_fn(r["i"], [m.it.newcell(st, m.it.sym(ty, ("self",)))] + a, st))
        if w:
            return w
    return ""


def forwards(p, n, call):
    m = Tool(p)
    it, B = m.it, m.B
    u32 = next((i for i, t in enumerate(m.types) if t["name"] == "u32"), None)
    out = next((i for i, t in enumerate(m.types) if t["name"].endswith("CpuIdResult")), None)
    if u32 is None or out is None:
        return " (nothing is read)"
    a = [it.sym(u32, ("arg", k)) for k in range(n)]
    st = St({}, 1)
    try:
        v = call(m, st, list(a), out)
    except Unsupported as e:
        return " (%s)" % e
    want = (a + [("b", (0,) * 32)])[:2]
    if st.pc != 1:
        return " (it may not answer)"
    reads = [e for e in it.events if e["kind"] == "library"]
    for e in reads:
        last = e["path"].split("::")[-1]
        got = list(e["args"])[{"cpuid_count": 0, "cpuid2": 1, "cpuid1": 1}.get(last, 9):]
        if last == "cpuid1":
            got += [("b", (0,) * 32)]
        if e["pc"] != 1 or got != want:
            continue
        if last != "cpuid_count" and m.types[e["aty"][0]]["name"].replace("raw_cpuid::", "").lstrip("&") not in NATIVE:
            continue
        if it.canon(v, st) == it.canon(e["out"], st):
            return ""
    return " (its answer is not the processor's answer to the same leaf and sub-leaf)"


def maker(path):
    """how a CpuId over the native source comes about"""
    return "CpuId" in path and path.split("::")[-1] in ("new", "default", "with_cpuid_reader", "clone")


def find(m, ty, v, want):
    if ty == want:
        return v
    t = m.types[ty]
    if t["k"] == "adt" and t.get("kind") == "struct" and v is not None and v[0] == "s":
        for f, x in zip(t["v"][0]["f"], v[1]):
            r = find(m, f[1], x, want)
            if r is not None:
                return r
    return None


def names(ctx, p):
    m = Tool(p)
    it, B = m.it, m.B
    ty, vs = formats(m)
    r0 = root(p, "to_possible_value", "ValueEnum")
    for n, k in vs.items():
        st = St({}, 1)
        ref = it.newcell(st, ("e", ty, ((k, 1, ()),)))
        r = m.run(r0, [ref], st)
        if r.err:
            ctx.bad("names:" + n, "the name of the %s format cannot be analysed: %s" % (n, r.err), at=r0["span"])
            continue
        got = None
        if r.val is not None and r.val[0] == "e":
            s, fs = it.some(r.val)
            if s == 1 and fs[0] is not None and fs[0][0] == "o" and fs[0][1][0] == "names":
                got = fs[0][1][1]
        ctx.count("names")
        others = [x for k, x in NAMES.items() if k != n]
        if not got or NAMES[n] not in got or None in got or any(x in got for x in others):
            ctx.bad("names:" + n, "the %s format is selected by %s, not by %r alone" % (n, "nothing" if not got else " or ".join(map(repr, sorted(set(got), key=str))), NAMES[n]), at=r0["span"])
        else:
            ctx.good()
    r0 = root(p, "value_variants", "ValueEnum")
    r = m.run(r0, [], St({}, 1))
    if r.err:
        ctx.bad("names:list", "the list of formats cannot be analysed: %s" % r.err, at=r0["span"])
        return
    seen = []
    for x in it.load_ref_slice(r.st, r.val):
        seen += [var for var, g, _ in x[2] if g == 1]
    if sorted(seen) != sorted(vs.values()):
        ctx.bad("names:list", "the list of selectable formats is not each format once", at=r0["span"])
    else:
        ctx.good()


def parse(ctx, p):
    m = Tool(p)
    it, B = m.it, m.B
    ty, vs = formats(m)
    r0 = root(p, "from_str", "FromStr")
    st = St({}, 1)
    # an arbitrary text (its first 32 bytes matter; no format name is longer)
    cell = it.newcell(st, ("s", tuple(("b", B.word(("byte", k), 8)) for k in range(32))))[1][0][1][0]
    text = ("r", ((1, (cell, (), (B.const(0, 64), B.word(("length",), 64)))),))
    r = m.run(r0, [text], st)
    if r.err:
        ctx.bad("parse", "reading a format name cannot be analysed: %s" % r.err, at=r0["span"])
        return
    t = m.types[r.val[1]]
    got = {n: 0 for n in vs}
    for var, g, fs in r.val[2]:
        if t["v"][var]["n"] != "Ok":
            continue
        for n, k in vs.items():
            for x in fs[0][2]:
                if x[0] == k:
                    got[n] = B.OR(got[n], B.AND(g, x[1]))
    for n in vs:
        want = natives.bytes_eq(it, r.st, text, it.mkstr(NAMES[n].encode()))
        ctx.count("parsed_texts")
        if got[n] == want:
            ctx.good()
        else:
            ctx.bad("parse:" + n, "not exactly the text %r is read as the %s format" % (NAMES[n], n), at=r0["span"])
    if r.st.pc != 1:
        ctx.bad("parse:ends", "reading a format name does not always give an answer", at=r0["span"])


def default(ctx, p):
    m = Tool(p)
    it = m.it
    for r0 in [root(p, "augment_args", "Args")]:
        r = m.run(r0, [("o", ("clap", 0))], St({}, 1))
        if r.err:
            ctx.bad("default", "the options cannot be analysed: %s" % r.err, at=r0["span"])
            return
        ds = [e for e in r.events if e["kind"] == "clap" and e["last"].startswith("default_value")]
        if len(ds) != 1:
            ctx.bad("default", "the format option has %d default values" % len(ds), at=r0["span"])
            continue
        t = texts(it, St(ds[0]["st"], 1), ds[0]["args"][1])
        if t != DEFAULT:
            ctx.bad("default", "the default format is %r, not %r" % (t, DEFAULT), at=r0["span"])
        else:
            ctx.good()
