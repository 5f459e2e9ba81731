"""Parser and evaluator for spec/leaves.spec: for every public query, the documented
source of the value it reports, as a bit expression over CPUID registers."""
import re

REGS = {"eax": 0, "ebx": 1, "ecx": 2, "edx": 3}
AMD_RESERVED = (2, 3, 4, 8, 9, 0xA)


class SpecError(Exception):
    pass


class Entry:
    def __init__(self, name, expr, line):
        self.name, self.expr, self.line = name, expr, line
        self.kids = []


class Section:
    def __init__(self, kind, name, gate):
        self.kind, self.name, self.gate = kind, name, gate
        self.entries = []


def load(path):
    secs = []
    cur = None
    last = None
    for no, l in enumerate(open(path), 1):
        l = l.rstrip()
        if not l or l.startswith("#"):
            continue
        if not l.startswith(" "):
            if l.startswith("item "):
                cur = Section("item", l.split()[1], None)
            else:
                n, g = l.split("@")
                cur = Section("getter", n.strip(), g.strip())
            secs.append(cur)
            continue
        ind = len(l) - len(l.lstrip())
        n, e = l.split(None, 1)
        ent = Entry(n, e.strip(), no)
        if ind >= 4:
            last.kids.append(ent)
        else:
            cur.entries.append(ent)
            last = ent
    return secs


FIELD = re.compile(r"^(?:(\.|[0-9a-f]+/\d+):(e[abcd]x)|(\.sub))\[(\d+)(?::(\d+))?\]$")


class Eval:
    """Evaluates documented expressions with the same canonical bit carrier."""

    def __init__(self, it, rid=None):
        self.it = it
        self.B = it.B
        self.rid = rid        # reader identity (None = the instance's own reader)
        self.item = None      # ({reg: bits}, sub bits) of the current iterator item
        self._amd = None
        self._intel = None

    # --- registers
    def word(self, leaf, sub, reg):
        tag = "cpuid" if self.rid is None else "cpuid@%s" % self.rid
        return self.B.word((tag, leaf, sub, reg), 32)

    def regof(self, leafsub, reg):
        if leafsub == ".":
            return self.item[0][reg]
        l, s = leafsub.split("/")
        return self.word(int(l, 16), int(s), reg)

    def field(self, tok):
        m = FIELD.match(tok)
        if not m:
            raise SpecError("bad field " + tok)
        ls, reg, sub, hi, lo = m.groups()
        if sub:
            w = self.item[1]
        else:
            w = self.regof(ls, reg)
        hi = int(hi)
        lo = hi if lo is None else int(lo)
        return w[lo : hi + 1]

    # --- vendor classes
    def bytes_eq(self, word, text):
        v = int.from_bytes(text, "little")
        return self.B.eq(word, self.B.const(v, 8 * len(text)))

    def sig(self, s):
        """12-byte vendor signature in EBX, EDX, ECX order of leaf 0"""
        s = s.encode()
        B = self.B
        r = 1
        for reg, p in (("ebx", s[0:4]), ("edx", s[4:8]), ("ecx", s[8:12])):
            r = B.AND(r, self.bytes_eq(self.word(0, 0, reg), p))
        return r

    @property
    def amd(self):
        if self._amd is None:
            self._amd = self.B.OR(self.sig("AuthenticAMD"), self.sig("HygonGenuine"))
        return self._amd

    @property
    def intel(self):
        if self._intel is None:
            self._intel = self.sig("GenuineIntel")
        return self._intel

    # --- gates
    def le_const(self, c, word):
        B = self.B
        return B.NOT(B.ult(word, B.const(c, len(word))))

    def L(self, leaf):
        B = self.B
        if leaf >= 0x80000000:
            return self.le_const(leaf, self.word(0x80000000, 0, "eax"))
        g = self.le_const(leaf, self.word(0, 0, "eax"))
        if leaf in AMD_RESERVED:
            g = B.AND(g, B.NOT(self.amd))
        return g

    def cond(self, s):
        """gate grammar: terms joined by &, | (lowest), ! prefix"""
        B = self.B
        r = 0
        for alt in s.split("|"):
            a = 1
            for t in alt.split("&"):
                t = t.strip()
                neg = t.startswith("!")
                if neg:
                    t = t[1:].strip()
                if t == "amd":
                    v = self.amd
                elif t == "intel":
                    v = self.intel
                elif t.startswith("L("):
                    v = self.L(int(t[2:-1], 16))
                elif t.startswith("GE("):
                    reg, c = t[3:-1].split(",")
                    ls, rg = reg.split(":")
                    v = self.le_const(int(c, 16), self.regof(ls, rg))
                elif t == "1":
                    v = 1
                else:
                    f = self.field(t)
                    if len(f) != 1:
                        raise SpecError("not a single bit: " + t)
                    v = f[0]
                a = B.AND(a, B.NOT(v) if neg else v)
            r = B.OR(r, a)
        return r

    # --- values
    def bits(self, expr):
        """bit-vector (natural width, LSB first) of a simple documented expression"""
        B = self.B
        expr = expr.strip()
        if expr.startswith("amd&"):
            f = self.bits(expr[4:])
            return tuple(B.AND(self.amd, x) for x in f)
        if expr.startswith("!"):
            return tuple(B.NOT(x) for x in self.bits(expr[1:]))
        if expr.startswith("cat "):
            out = ()
            for t in expr.split()[1:]:
                m = re.match(r"^(\d+)x0$", t)
                out += (0,) * int(m.group(1)) if m else self.field(t)
            return out
        m = re.match(r"^(.*\])\+(\d+)$", expr)
        if m:
            f = self.field(m.group(1))
            w = len(f) + 1
            return B.add(f + (0,), B.const(int(m.group(2)), w))[0]
        return self.field(expr)
