"""Reduced ordered binary decision diagrams: the canonical carrier for the per-bit
lattice of the value-flow analysis.  A node is an int; 0 = false, 1 = true.
Two bit functions are equal on every input iff their nodes are the same int, so the
analysis needs no solver and enumerates no paths or inputs."""


class Blowup(Exception):
    pass


PEAK = [0, 0]       # development aid: largest diagram store seen at a 4096-node step

REGNO = {"eax": 0, "ebx": 1, "ecx": 2, "edx": 3}


class BDD:
    def __init__(self, order="major", budget=4_000_000):
        self.lvl = [1 << 62, 1 << 62]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.vars = {}      # key -> node
        self.names = {}     # level -> key
        self.seqs = {}
        self.tags = {}
        self.order = order
        self.budget = budget

    def var(self, base, bit):
        """Variable number `bit` of the word named `base` (any hashable)."""
        k = (base, bit)
        v = self.vars.get(k)
        if v is not None:
            return v
        s = self.seqs.get(base)
        if s is None:
            s = self.seqs[base] = len(self.seqs) + 1
        if isinstance(base, tuple) and len(base) == 4 and base[1] == 2 and base[3] in REGNO:
            # legacy cache descriptors: valid bits first, then the bytes against the scanning order,
            # so that "nothing found so far" conditions stay shared below the byte under test
            r = REGNO[base[3]]
            lvl = (1 << 55) + (r if bit == 31 else (1 << 20) + ((3 - (bit >> 3)) << 16) + ((3 - r) << 8) + bit)
            lvl += self.tags.setdefault((base[0], base[2]), len(self.tags)) << 56
        elif self.order == "major":
            lvl = (s << 12) | bit
        else:
            lvl = (bit << 40) | s
        self.names[lvl] = k
        v = self.mk(lvl, 0, 1)
        self.vars[k] = v
        return v

    def mk(self, lvl, lo, hi):
        if lo == hi:
            return lo
        k = (lvl, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.lvl)
            if n > self.budget or (not n & 0xFFF and len(self.memo) > 2 * self.budget):
                raise Blowup("bit-function size budget exceeded")
            if not n & 0xFFF:
                PEAK[0], PEAK[1] = max(PEAK[0], n), max(PEAK[1], len(self.memo))
            self.lvl.append(lvl)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if g == f:
            g = 1
            if h == 0:
                return f
        if h == f:
            h = 0
            if g == 1:
                return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        lv = self.lvl
        a, b, c = lv[f], lv[g], lv[h]
        m = a
        if b < m:
            m = b
        if c < m:
            m = c
        if a == m:
            f0, f1 = self.lo[f], self.hi[f]
        else:
            f0 = f1 = f
        if b == m:
            g0, g1 = self.lo[g], self.hi[g]
        else:
            g0 = g1 = g
        if c == m:
            h0, h1 = self.lo[h], self.hi[h]
        else:
            h0 = h1 = h
        r = self.mk(m, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a > b:
            a, b = b, a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a > b:
            a, b = b, a
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        return self.ite(a, self.ite(b, 0, 1), b)

    def IFF(self, a, b):
        if a == b:
            return 1
        return self.ite(a, b, self.ite(b, 0, 1))

    def restrict(self, f, care):
        """Coudert-Madre restrict: simplify f using don't-cares outside `care`."""
        if care == 0 or f < 2 or care == 1:
            return f
        memo = {}

        def go(f, c):
            if c == 1 or f < 2:
                return f
            k = (f, c)
            r = memo.get(k)
            if r is not None:
                return r
            lf, lc = self.lvl[f], self.lvl[c]
            if lc < lf:
                r = go(f, self.OR(self.lo[c], self.hi[c]))
            elif lf < lc:
                r = self.mk(lf, go(self.lo[f], c), go(self.hi[f], c))
            else:
                c0, c1 = self.lo[c], self.hi[c]
                if c0 == 0:
                    r = go(self.hi[f], c1)
                elif c1 == 0:
                    r = go(self.lo[f], c0)
                else:
                    r = self.mk(lf, go(self.lo[f], c0), go(self.hi[f], c1))
            memo[k] = r
            return r

        return go(f, care)

    def witness(self, f):
        """One assignment making f true, as {base: {bit: val}}; None if f is false."""
        if f == 0:
            return None
        out = {}
        while f != 1:
            base, bit = self.names[self.lvl[f]]
            if self.lo[f] != 0:
                out.setdefault(base, {})[bit] = 0
                f = self.lo[f]
            else:
                out.setdefault(base, {})[bit] = 1
                f = self.hi[f]
        return out

    def support(self, f):
        seen = set()
        st = [f]
        res = set()
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            res.add(self.names[self.lvl[n]])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return res

    # ---- words (tuples of nodes, LSB first)
    def const(self, v, w):
        return tuple((v >> i) & 1 for i in range(w))

    def word(self, base, w):
        return tuple(self.var(base, i) for i in range(w))

    def is_const(self, a):
        for x in a:
            if x > 1:
                return None
        r = 0
        for i, x in enumerate(a):
            r |= x << i
        return r

    def add(self, a, b, cin=0):
        out = []
        c = cin
        for x, y in zip(a, b):
            xy = self.XOR(x, y)
            out.append(self.XOR(xy, c))
            c = self.ite(xy, c, x)
        return tuple(out), c

    def sub(self, a, b):
        nb = tuple(self.NOT(x) for x in b)
        r, c = self.add(a, nb, 1)
        return r, self.NOT(c)  # borrow

    def eq(self, a, b):
        r = 1
        for x, y in zip(reversed(a), reversed(b)):
            r = self.AND(r, self.IFF(x, y))
            if r == 0:
                return 0
        return r

    def ult(self, a, b):
        r = 0
        for x, y in zip(a, b):
            # from LSB to MSB: r = (~x & y) | (x iff y) & r
            r = self.ite(x, self.AND(y, r), self.OR(y, r))
        return r

    def mux(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        return tuple(self.ite(c, x, y) for x, y in zip(a, b))

    def maxval(self, a):
        r = 0
        for i, x in enumerate(a):
            if x != 0:
                r |= 1 << i
        return r
