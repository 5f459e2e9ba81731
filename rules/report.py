"""C20 (the human-readable report), C21 (the raw dump): what the command-line output shows."""
import os
import re
import same
import printer
from absint import St, Unsupported
from model import Missing

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "report.spec")


class Line:
    """one line of output: a heading, a text line or a table row"""

    def __init__(self, kind, guard, pieces, event, label=None):
        self.kind, self.guard, self.pieces, self.event, self.label = kind, guard, pieces, event, label
        self.heads = []


def sig(ps):
    """what a sequence of pieces looks like, arguments left open"""
    return "".join(p[1].decode("utf8", "replace") if p[0] == "lit" else "{}" for p in ps)


def strip(ps, chars):
    ps = list(ps)
    if ps and ps[0][0] == "lit":
        ps[0] = ("lit", ps[0][1].lstrip(chars))
    if ps and ps[-1][0] == "lit":
        ps[-1] = ("lit", ps[-1][1].rstrip(chars))
    return tuple(p for p in ps if p != ("lit", b""))


def layout(tpl):
    """table template -> [(sub name or None, [cell text], [cell text of the header row])]"""
    out, sub, header = [], None, None
    for ln in tpl.decode("utf8").split("\n"):
        ln = ln.strip()
        if ln.startswith("${") and "}" not in ln:
            sub = ln[2:].strip()
            continue
        if ln == "}":
            sub = None
            continue
        if not ln.startswith("|"):
            continue
        cells = [c.strip().strip("*") for c in ln.strip("|").split("|")]
        if all(re.fullmatch(r"[-: ]*", c) for c in cells):
            continue
        if not any("${" in c for c in cells):
            header = cells
            continue
        out.append((sub, cells, header))
    return out


def fill(cell, values):
    """pieces of a cell once its placeholders are replaced; None if one is not set"""
    out = []
    for x in re.split(r"(\$\{[^}]*\})", cell):
        if x.startswith("${"):
            v = values.get(x[2:-1])
            if v is None:
                return None
            out.append(("str", v))
        elif x:
            out.append(("lit", x.encode("utf8")))
    return out


def collect(m, r):
    """the report as a list of Lines, in order of output"""
    it, B = m.it, m.B
    out = []
    cells = {}
    for e in r.events:
        if e["kind"] == "cell":
            cells.setdefault(e["table"], []).append(e)
        elif e["kind"] in ("line", "print"):
            st = St(e["st"], e["pc"])
            for g, ps in printer.flatten(it, st, e["pc"], e["val"]):
                body = strip(ps, b"\n ")
                if body and body[0][0] == "lit" and body[0][1].startswith(b"#"):
                    out.append(Line("head", g, strip(body, b"#\n "), e))
                else:
                    out.append(Line("line", g, body, e))
        elif e["kind"] == "table":
            lay = layout(e["tpl"])
            rows = {}
            order = []
            for c in cells.get(e["table"], ()):
                k = (c["sub"], c["row"])
                if k not in rows:
                    order.append(k)
                rows.setdefault(k, []).append(c)
            for k in order:
                g = e["pc"]
                vals = {}
                for c in rows[k]:
                    vals[c["name"]] = c["val"]
                    if k[1] is not None:
                        g = B.AND(g, c["pc"])
                for sub, cs, header in lay:
                    if sub != k[0]:
                        continue
                    got = [fill(c, vals) for c in cs]
                    if any(x is None for x in got):
                        continue
                    pairs = [(got[:-1], got[-1])] if sub is not None or header is None else [([[("lit", h.encode("utf8"))]], x) for h, x in zip(header, got)]
                    for lab, val in pairs:
                        label = []
                        for x in lab:
                            label += ([("lit", b" / ")] if label else []) + x
                        st = St(e["st"], g)
                        L = printer.flatten(it, st, g, printer.mk(it, label))
                        for g2, lp in L:
                            out.append(Line("row", g2, printer.mk(it, val), e, lp))
    heads = []
    for x in out:
        if x.kind == "head":
            heads.append(x)
            continue
        rem = x.guard
        for h in reversed(heads):
            k = B.AND(rem, h.guard)
            if k:
                x.heads.append((k, h))
                rem = B.AND(rem, B.NOT(h.guard))
            if not rem:
                break
        if rem:
            x.heads.append((rem, None))
    return out


# ------------------------------------------------------------------ documented quantities
class Sub:
    """a value the report describes: where it comes from, and when it is there"""

    def __init__(self, name, ty, val, guard, index=None):
        self.name, self.ty, self.val, self.guard, self.index = name, ty, val, guard, index


class Quantities:
    def __init__(self, m, root, cpuid):
        self.m, self.B = m, m.B
        ty = root["ins"][0]
        self.base = Sub("CpuId", ty, cpuid, 1)
        self.memo = {}

    def call(self, s, name):
        """(type, value) of a public query or public field of s"""
        m = self.m
        t = m.types[s.ty]
        root = m.accessors(s.ty).get(name)
        if root is not None:
            st = St({}, 1)
            a = m.recv(st, s, root)
            return root["out"], m.value(root, [a], st, root["out"])
        if t["k"] == "adt" and t["kind"] == "struct":
            for i, f in enumerate(t["v"][0]["f"]):
                if f[0] == name and f[2] and s.val is not None and s.val[0] == "s":
                    return f[1], s.val[1][i]
        raise Missing("%s::%s" % (m.tpath(s.ty), name))

    def subjects(self, chain):
        """every subject a chain like get_a.b* denotes ('*': the items of an enumeration)"""
        if chain in self.memo:
            return self.memo[chain]
        cur = [self.base]
        for el in chain.split("."):
            stars = el.endswith("*")
            el = el.rstrip("*")
            nxt = []
            for s in cur:
                x = self.element(s, el) if el else s
                nxt += self.items(x) if stars else [x]
            cur = nxt
        self.memo[chain] = cur
        return cur

    def element(self, s, el):
        m = self.m
        if el[0].isupper():
            t = m.types[s.ty]
            for vi, g, fs in s.val[2]:
                if t["v"][vi]["n"] == el:
                    return Sub(s.name + "::" + el, t["v"][vi]["f"][0][1], fs[0], self.B.AND(s.guard, g), s.index)
            raise Missing("variant %s of %s" % (el, m.tpath(s.ty)))
        ty, v = self.call(s, el)
        name = s.name + "." + el
        if m.is_option(ty):
            g, fs = m.it.some(v)
            return Sub(name, m.opt_payload(ty), fs[0], self.B.AND(s.guard, g), s.index)
        return Sub(name, ty, v, s.guard, s.index)

    def items(self, s):
        m = self.m
        root = m.trait(s.ty, "core::iter::Iterator", "next")
        if root is None:
            raise Missing("enumeration %s" % s.name)
        out, left = [], s.guard
        for k in range(printer.STEPS):
            v = m.item(root["out"], s.val, St({}, 1), k)
            g, fs = m.it.some(v)
            left = self.B.AND(left, g)
            out.append(Sub("%s[%d]" % (s.name, k), m.opt_payload(root["out"]), fs[0], left, k))
        return out


# ------------------------------------------------------------------ the specification of the report
class Entry:
    """kind head/line/row; label and value are pieces: ("lit", bytes) or ("get", term, kind, options)"""

    def __init__(self, kind, chain, label, value, ln):
        self.kind, self.chain, self.label, self.value, self.ln = kind, chain, label, value, ln
        self.rows = []
        self.shown = {}

    def text(self):
        return sig(self.label)


def pieces(txt):
    out = []
    for x in re.split(r"(<[^>]*>)", txt):
        if x.startswith("<") and x.endswith(">"):
            term, _, f = x[1:-1].partition(":")
            out.append(("get", term, FORMATS[f]))
        elif x:
            out.append(("lit", x.encode("utf8")))
    return tuple(out)


# radix, prefixed, minimal width, padding
FORMATS = {"": ("dec", False, None, None), "#x": ("hex", True, None, None), "08x": ("hex", False, 8, "0")}


def shape(kind, opts):
    """what a formatter makes of an unsigned number, whatever way it is asked"""
    o = dict(opts)
    fl = o.get("flags", 0x60000020)
    radix = {"display": "dec", "debug": "dec", "lower_hex": "hex", "upper_hex": "hex"}.get(kind, kind)
    if kind == "debug" and fl & 0x6000000:
        radix = "hex"
    width = o.get("width", o.get("dynwidth"))
    zero = fl & 0x1000000 or (fl & 0x1fffff) == 0x30 and (fl >> 29) & 3 in (1, 3)
    return radix, bool(fl & 0x800000) and radix == "hex", width, None if width is None else "0" if zero else "pad"


def load():
    entries, chain, head = [], "", None
    for n, ln in enumerate(open(SPEC, encoding="utf8"), 1):
        ln = ln.strip()
        if not ln or ln.startswith("%"):
            continue
        if ln.startswith("="):
            chain = ln[1:].strip()
        elif ln.startswith("# "):
            head = Entry("head", chain, pieces(ln[2:]), None, n)
            entries.append(head)
        elif ln.startswith("> "):
            entries.append(Entry("line", chain, pieces(ln[2:]), None, n))
        else:
            lab, val = ln.rsplit(" | ", 1)
            head.rows.append(Entry("row", chain, pieces(lab), val if re.fullmatch(r"\w+", val) else pieces(val), n))
    seen = {}
    for h in entries:
        for e in h.rows:
            k = (e.chain, e.value)
            if e.chain and k in seen:
                raise Missing("report.spec: lines %d and %d show the same quantity" % (seen[k], e.ln))
            seen[k] = e.ln
    return entries


# ------------------------------------------------------------------ C20
YES = {"\u2705", "\u2714", "\u2713", "true", "yes", "y", "1", "on"}
NO = {"\u274c", "\u2718", "\u2717", "\u2716", "false", "no", "n", "0", "off", "", "-"}


class Compare:
    def __init__(self, ctx, m, q, r):
        self.ctx, self.m, self.B, self.q, self.r = ctx, m, m.B, q, r

    # ---- expected values
    def expect(self, s, term):
        """[(guard, type, value or None)] of a term of the specification"""
        m, B = self.m, self.B
        if term.startswith("#"):
            return [(1, None, ("b", B.const((s.index or 0) + int(term[1:] or 0), 64)))]
        if "?" in term:
            a, b = term.split("?")
            x = Sub(s.name, s.ty, s.val, 1, s.index)
            y = self.q.element(x, a)
            ty, v = self.q.call(y, b)
            return [(y.guard, ty, v), (B.NOT(y.guard), None, None)]
        if "*" in term:
            acc = None
            for f in term.split("*"):
                w = B.const(int(f), 64) if f.isdigit() else self.word(self.q.call(s, f)[1])
                acc = w if acc is None else m.it.mul(acc, w, False)[0]
            return [(1, None, ("b", acc))]
        ty, v = self.q.call(s, term)
        return [(1, ty, v)]

    def word(self, v, n=64):
        return tuple(v[1]) + (0,) * (n - len(v[1]))

    def alternatives(self, s, ps):
        """[(guard, [("lit", ..) | ("val", ty, value, format)])]"""
        out = [(1, [])]
        for p in ps:
            if p[0] == "lit":
                for g, q in out:
                    q.append(p)
                continue
            alts = self.expect(s, p[1])
            out = [(self.B.AND(g, a), q + ([("val", ty, v, p[2])] if v is not None else [])) for g, q in out for a, ty, v in alts]
        return [(g, q) for g, q in out if g]

    # ---- comparison
    def same_text(self, g, got, s, want):
        """None, or what is wrong with the observed pieces under g"""
        B = self.B
        for a, q in self.alternatives(s, want):
            k = B.AND(g, a)
            if not k:
                continue
            if [p[0] == "lit" for p in got] != [p[0] == "lit" for p in q]:
                return "shows %r" % sig(got)
            for x, y in zip(got, q):
                if x[0] == "lit":
                    if x[1] != y[1]:
                        return "shows %r" % sig(got)
                    continue
                d = self.differ(k, x[2], y[2])
                if d:
                    return "does not show %s" % self.term(want, y)
                if y[2][0] == "b" and shape(x[1], x[4]) != y[3]:
                    return "shows %s in another format" % self.term(want, y)
                if y[2][0] != "b" and x[1] != "display":
                    return "shows the %s form of %s" % (x[1], self.term(want, y))
        return None

    def term(self, want, y):
        return " and ".join(p[1] for p in want if p[0] == "get")

    def differ(self, g, x, y):
        if x is None:
            return g
        if x[0] == "b" and y[0] == "b":
            n = max(len(x[1]), len(y[1]))
            return self.B.AND(g, self.B.NOT(self.B.eq(self.word(x, n), self.word(y, n))))
        st = self.r.st.c
        return same.diff(self.m, g, x, st, y, st)

    def yes_no(self, g, got, s, name):
        ty, v = self.q.call(s, name)
        if v[0] != "b" or len(v[1]) != 1:
            raise Missing("predicate " + name)
        b = v[1][0]
        B = self.B
        if len(got) == 1 and got[0][0] == "arg" and got[0][2] is not None and got[0][2][0] == "b" and len(got[0][2][1]) == 1:
            return "does not show %s" % name if self.differ(g, got[0][2], v) else None
        if any(p[0] != "lit" for p in got):
            return "shows %r, not %s" % (sig(got), name)
        t = sig(got).strip().strip("\ufe0f").lower()
        if t in YES:
            return "says yes when %s does not" % name if B.AND(g, B.NOT(b)) else None
        if t in NO:
            return "says no when %s says yes" % name if B.AND(g, b) else None
        return "shows %r, not %s" % (t, name)

    def value(self, line, g, s, e):
        it = self.m.it
        for g2, got in printer.flatten(it, St(line.event["st"], g), g, line.pieces):
            w = self.yes_no(g2, got, s, e.value) if isinstance(e.value, str) else self.same_text(g2, got, s, e.value)
            if w:
                return w
        return None

    # ---- one line of output against the entries it may be
    def match(self, line, g, entries, related):
        """(entry, subject) the line is, or a string saying why it is none"""
        B = self.B
        why = None
        got = line.label if line.kind == "row" else line.pieces
        for e in entries:
            if e.text() != sig(got):
                continue
            for s in self.q.subjects(e.chain):
                if not related(e, s):
                    continue
                if B.AND(g, B.NOT(s.guard)):
                    why = why or "is printed when the value it describes (%s) is not reported" % (s.name or "it")
                    continue
                w = self.same_text(g, got, s, e.label)
                if w is None and line.kind == "row":
                    w = self.value(line, g, s, e)
                if w is None:
                    return e, s
                why = w
        return why or "is not part of the report as specified"

    def shown(self, e, s, g, line):
        k = (e.ln, s.name)
        B = self.B
        if B.AND(e.shown.get(k, 0), g):
            self.bad(line, "is printed twice")
        e.shown[k] = B.OR(e.shown.get(k, 0), g)

    def key(self, line):
        return "%s:%s" % (line.kind, sig(line.label if line.kind == "row" else line.pieces))

    def bad(self, line, what, under=None):
        e = line.event
        kind = {"head": "section", "row": "row", "line": "line"}[line.kind]
        self.ctx.bad(self.key(line) + (":" + under if under else ""), "the report's %s %r%s %s" % (kind, sig(line.label if line.kind == "row" else line.pieces), " of section %r" % under if under else "", what),
                     at="%s:%s" % (e["fn"], e["ln"]))


def c20(ctx):
    ctx.explanation = (
        "Value-flow of the whole report (display::markdown, with every helper it uses) over MIR, every query of the library being an uninterpreted "
        "function of its receiver: the sections, table rows and lines it prints, each with the condition it is printed under and the pieces of its text, "
        "are derived for arbitrary query results (enumerations: up to %d items) and compared, as functions, with spec/report.spec, which says for each "
        "section whose quantities it shows and for each row which query its label names. Each specified line must be printed exactly when the value it "
        "describes is reported, once, showing that query's result; nothing else may be printed." % printer.STEPS)
    ctx.assumptions += [
        "the terminal-markdown crate prints the texts it is given; numbers and characters are formatted by core in a way that determines them",
        "enumerations are analysed for up to %d items; the loop bodies are the same for the following ones" % printer.STEPS,
    ]
    m = printer.Printer(ctx.prog("display"))
    roots = [r for r in m.p.roots if r["path"].endswith("display::markdown")]
    if not roots:
        raise Missing("display::markdown")
    root = roots[0]
    st = St({}, 1)
    v = m.it.sym(root["ins"][0], ("arg", 0))
    r = m.run(root, [v], st, 200)
    if r.err:
        ctx.bad("markdown", "the report cannot be analysed: %s" % r.err, at=root["span"])
        return
    lines = collect(m, r)
    q = Quantities(m, root, v)
    B = m.B
    entries = load()
    c = Compare(ctx, m, q, r)
    where = {}
    for x in lines:
        ctx.count("lines")
        if x.kind in ("head", "line"):
            w = c.match(x, x.guard, [e for e in entries if e.kind == x.kind], lambda e, s: True)
            if isinstance(w, str):
                c.bad(x, w)
                continue
            ctx.good()
            ctx.sample("%s %r <- %s" % (x.kind, sig(x.pieces), w[1].name))
            c.shown(w[0], w[1], x.guard, x)
            where[id(x)] = w
            continue
        for g, h in x.heads:
            if h is None:
                c.bad(x, "is printed outside any section")
                continue
            if id(h) not in where:
                continue
            he, hs = where[id(h)]
            w = c.match(x, g, he.rows, lambda e, s: e.chain != he.chain or s is hs)
            if isinstance(w, str):
                c.bad(x, w, he.text())
                continue
            ctx.good()
            ctx.sample("row %r of %r <- %s.%s" % (sig(x.label), he.text(), w[1].name, w[0].value if isinstance(w[0].value, str) else w[0].value and w[0].value[0][1]), 80)
            c.shown(w[0], w[1], g, x)
    for h in entries:
        for e in [h] + h.rows:
            for s in q.subjects(e.chain):
                ctx.count("specified_lines")
                if B.AND(s.guard, B.NOT(e.shown.get((e.ln, s.name), 0))):
                    ctx.bad("missing:%s:%s" % (h.text(), e.text()), "the report's %s %r%s is missing in some case in which %s is reported" % (
                        {"head": "section", "row": "row", "line": "line"}[e.kind], e.text(), " of section %r" % h.text() if e is not h else "", s.name or "it"), at=root["span"])
                else:
                    ctx.good()
    for e in r.events:
        if e["kind"] == "query":
            ctx.count("queries")
    ctx.floor("specified_lines", 550)
    ctx.floor("lines", 550)


# ------------------------------------------------------------------ C21
STARTS = (("basic", 0), ("hypervisor", 0x4000_0000), ("extended", 0x8000_0000))
WINDOW, TOGETHER = 64, 8
RAW = "({}, {}) => {}"


def c21(ctx):
    ctx.explanation = (
        "Value-flow of the raw dump (display::raw) over MIR, CPUID being an uninterpreted function of leaf and sub-leaf. First with every loop over a "
        "range of leaves replaced by one arbitrary number of that range, so for every leaf and every reported maximum; then with the loops followed "
        "exactly for maxima less than %d leaves above the start of their range (all leaves defined so far), each alone and, less than %d, together. Both times each line must be the "
        "registers of the very leaf and sub-leaf it is labelled with, printed exactly when start <= leaf <= reported maximum, once, for each of the "
        "basic, hypervisor and extended ranges." % (WINDOW, TOGETHER))
    ctx.assumptions += ["println! writes the text it is given; numbers and the derived Debug form of CpuIdResult are formatted in a way that determines them (C19)"]
    p = ctx.prog("display")
    roots = [r for r in p.roots if r["path"].endswith("display::raw")]
    if not roots:
        raise Missing("display::raw")
    root = roots[0]
    exact(ctx, p, root, (TOGETHER, TOGETHER, TOGETHER))
    for i in range(3):
        exact(ctx, p, root, [WINDOW if i == k else 1 for k in range(3)])
    anywhere(ctx, p, root)
    ctx.floor("windows", 12)
    ctx.floor("labelled_lines", 3)


def result_type(m):
    for i, t in enumerate(m.types):
        if t["k"] == "adt" and t["path"].split("::")[-1] == "CpuIdResult":
            return i
    raise Missing("CpuIdResult")


def maximum(m, ty, first):
    B = m.B
    v = printer.cpuid_value(m.it, B.const(first, 32), B.const(0, 32), ty)
    for f, x in zip(m.types[ty]["v"][0]["f"], v[1]):
        if f[0] == "eax":
            return x[1]
    raise Missing("CpuIdResult::eax")


def dumped(ctx, m, root, pc):
    """[(guard, leaf, sub-leaf, event)] of every line printed, each checked to show the registers of that leaf"""
    B, it = m.B, m.it
    st = St({}, pc)
    r = m.run(root, [("o", ("reader",))], st, 100000)
    if r.err:
        return r.err, None
    ty = result_type(m)
    out = []
    pend = None
    for e in r.events:
        if e["kind"] != "print":
            continue
        st = St(e["st"], e["pc"])
        for g, ps in printer.flatten(it, st, e["pc"], e["val"]):
            ps = strip(ps, b"\n")
            at = "%s:%s" % (e["fn"], e["ln"])
            args = [x for x in ps if x[0] == "arg"]
            if sig(ps) != RAW or args[0][2] is None or args[0][2][0] != "b" or args[1][2] is None or args[1][2][0] != "b":
                ctx.bad("text", "the dump prints %r, not a line %r" % (sig(ps), RAW), at=at)
                continue
            leaf, sub = args[0][2][1], args[1][2][1]
            want = printer.cpuid_value(it, leaf[:32], (tuple(sub) + (0,) * 32)[:32], ty)
            d = same.diff(m, g, args[2][2], e["st"], want, e["st"]) if args[2][3] == ty else g
            if shape(args[0][1], args[0][4])[0] != "hex" or shape(args[1][1], args[1][4])[0] != "hex":
                ctx.bad("format", "the dump's leaf numbers are not in hexadecimal", at=at)
            elif d:
                ctx.bad("label", "the dump prints a line whose registers are not those of the leaf it is labelled with", at=at)
            else:
                ctx.good()
            ctx.count("labelled_lines")
            out.append((g, leaf, sub, e))
    return None, out


def exact(ctx, p, root, sizes):
    """the loops followed exactly, each maximum less than so many leaves above the start of its range"""
    m = printer.Printer(p, order="major")
    B = m.B
    ty = result_type(m)
    pc = 1
    for (name, first), n in zip(STARTS, sizes):
        pc = B.AND(pc, B.ult(maximum(m, ty, first), B.const(first + n, 32)))
    err, lines = dumped(ctx, m, root, pc)
    if err:
        ctx.bad("raw", "the raw dump cannot be analysed: %s" % err, at=root["span"])
        return
    by = {}
    for g, leaf, sub, e in lines:
        l, s = (B.is_const(printer.settled(B, g, w)) for w in (leaf, sub))
        if l is None or s is None:
            ctx.bad("leaf", "the dump prints a line for a leaf that depends on more than the maxima", at="%s:%s" % (e["fn"], e["ln"]))
            continue
        if s:
            continue
        by.setdefault(l, []).append((g, e))
    for (name, first), n in zip(STARTS, sizes):
        ctx.count("windows")
        top = maximum(m, ty, first)
        for l in range(first, first + n):
            want = B.AND(pc, B.NOT(B.ult(top, B.const(l, 32))))
            got = 0
            for g, e in by.pop(l, ()):
                if B.AND(got, g):
                    ctx.bad("twice:" + name, "the dump prints leaf %#x twice" % l, at="%s:%s" % (e["fn"], e["ln"]))
                got = B.OR(got, g)
            if B.AND(want, B.NOT(got)):
                ctx.bad("missing:" + name, "the dump leaves out supported leaf %#x of the %s range" % (l, name), at=root["span"])
            elif B.AND(got, B.NOT(want)):
                ctx.bad("beyond:" + name, "the dump prints leaf %#x, beyond the reported maximum of the %s range" % (l, name), at=root["span"])
            else:
                ctx.good()
    for l, es in by.items():
        ctx.bad("outside", "the dump prints leaf %#x, which is in none of the ranges" % l, at="%s:%s" % (es[0][1]["fn"], es[0][1]["ln"]))


def anywhere(ctx, p, root):
    m = printer.Printer(p, ranges=True)
    B = m.B
    ty = result_type(m)
    s = ctx.snapshot()
    err, lines = dumped(ctx, m, root, 1)
    if err:
        ctx.restore(s)
        ctx.note("the loops of the raw dump are not over ranges: maxima beyond the window not analysed (%s)" % err)
        return
    left = dict(STARTS)
    for g, leaf, sub, e in lines:
        hit = None
        for name, first in STARTS:
            top = maximum(m, ty, first)
            want = B.AND(B.NOT(B.ult(leaf, B.const(first, 32))), B.NOT(B.ult(top, leaf)))
            if g == want and B.is_const(leaf) is None and left.pop(name, None) is not None:
                hit = name
                break
        if hit is None:
            ctx.bad("range", "the dump prints a line under a condition that is not \"from the first to the last supported leaf\" of a range", at="%s:%s" % (e["fn"], e["ln"]))
        else:
            ctx.good()
            ctx.sample("range %s: leaf %s printed iff start <= leaf <= maximum" % (hit, e["ln"]))
            ctx.count("ranges")
    for name in left:
        ctx.bad("range:" + name, "the dump has no loop over the %s range" % name, at=root["span"])
