"""Integer back end: an obligation already reduced to bit vectors (ack.py) is restated over the integers, every machine
operation with its wrap-around made explicit (sum = result + 2^w * carry), so that linear arithmetic solvers apply.
Operations without a linear definition become unconstrained values: hypotheses only get weaker, 'unsat' carries over."""
import z3


class Lia:
    def __init__(self, opaque=False):
        self.opaque = opaque
        self.cache = {}
        self.keep = []
        self.side = []
        self.n = 0
        self.ub = {}       # upper bounds of bit-vector terms known from the hypotheses
        self.hi = {}       # upper bound of each converted term

    def facts(self, f):
        """bounds stated by top-level hypotheses"""
        def le(t, c):
            i = t.get_id()
            self.keep.append(t)
            self.ub[i] = min(self.ub.get(i, c), c)
        k = f.decl().kind() if z3.is_app(f) else None
        if k == z3.Z3_OP_AND:
            for c in f.children():
                self.facts(c)
        elif k == z3.Z3_OP_ULEQ and z3.is_bv_value(f.arg(1)):
            le(f.arg(0), f.arg(1).as_long())
        elif k == z3.Z3_OP_ULT and z3.is_bv_value(f.arg(1)) and f.arg(1).as_long():
            le(f.arg(0), f.arg(1).as_long() - 1)
        elif k == z3.Z3_OP_NOT and z3.is_app(f.arg(0)) and f.arg(0).decl().kind() == z3.Z3_OP_ULEQ and z3.is_bv_value(f.arg(0).arg(0)):
            c = f.arg(0).arg(0).as_long()
            if c:
                le(f.arg(0).arg(1), c - 1)
        elif k == z3.Z3_OP_EQ:
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_bv_value(b):
                    le(a, b.as_long())
                    if b.as_long() == 0 and a.decl().kind() == z3.Z3_OP_EXTRACT:
                        h, l = a.params()
                        if h == a.arg(0).size() - 1 and l:
                            le(a.arg(0), (1 << l) - 1)

    def new(self, w, name='i'):
        self.n += 1
        x = z3.Int('%s!%d' % (name, self.n))
        self.side.append(z3.And(x >= 0, x < (1 << w)))
        return x

    def any(self, lo=None, hi=None):
        self.n += 1
        x = z3.Int('q!%d' % self.n)
        if lo is not None:
            self.side.append(x >= lo)
        if hi is not None:
            self.side.append(x <= hi)
        return x

    def tr(self, e):
        stack = [(e, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in self.cache:
                continue
            ch = x.children()
            if ch and not done:
                stack.append((x, True))
                for c in ch:
                    if c.get_id() not in self.cache:
                        stack.append((c, False))
                continue
            self.keep.append(x)
            self.cache[i] = self.conv(x, [self.cache[c.get_id()] for c in ch])
            if z3.is_bv(x):
                h = self.hi.get(i, (1 << x.size()) - 1)
                self.hi[i] = min(h, self.ub.get(i, h))
        return self.cache[e.get_id()]

    def wrap(self, s, w, lo, hi):
        """s mod 2^w, s known within lo..hi (Python ints)"""
        m = 1 << w
        if lo >= 0 and hi < m:
            return s
        r = self.new(w, 'r')
        k = self.any(lo // m, hi // m)
        self.side.append(s == r + m * k)
        return r

    def conv(self, x, a):
        k = x.decl().kind()
        if z3.is_bool(x):
            if not a:
                return x
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                return {z3.Z3_OP_ULEQ: lambda: a[0] <= a[1], z3.Z3_OP_ULT: lambda: a[0] < a[1], z3.Z3_OP_UGEQ: lambda: a[0] >= a[1],
                        z3.Z3_OP_UGT: lambda: a[0] > a[1]}[k]()
            if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                w = x.arg(0).size()
                s = [z3.If(v >= (1 << (w - 1)), v - (1 << w), v) for v in a]
                return {z3.Z3_OP_SLEQ: lambda: s[0] <= s[1], z3.Z3_OP_SLT: lambda: s[0] < s[1], z3.Z3_OP_SGEQ: lambda: s[0] >= s[1],
                        z3.Z3_OP_SGT: lambda: s[0] > s[1]}[k]()
            if k == z3.Z3_OP_AND:
                return z3.And(*a)
            if k == z3.Z3_OP_OR:
                return z3.Or(*a)
            if k == z3.Z3_OP_NOT:
                return z3.Not(a[0])
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*a)
            if k == z3.Z3_OP_XOR:
                return z3.Xor(*a)
            if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
                return a[0] == a[1]
            if k == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*a)
            if k == z3.Z3_OP_ITE:
                return z3.If(*a)
            self.n += 1
            return z3.Bool('b!%d' % self.n)
        w = x.size()
        m = 1 << w
        if z3.is_bv_value(x):
            self.hi[x.get_id()] = x.as_long()
            return z3.IntVal(x.as_long())
        if not a:
            return self.new(w, 'c_' + x.decl().name())
        if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB or k == z3.Z3_OP_BMUL or k == z3.Z3_OP_BNEG:
            lin = self.linear(x)
            s = None
            lo = hi = 0
            for t, c in lin:
                if t is None:
                    v = z3.IntVal(c)
                    lo, hi = lo + c, hi + c
                else:
                    v = self.cache[t.get_id()] * c if c != 1 else self.cache[t.get_id()]
                    b = self.hi.get(t.get_id(), m - 1)
                    if c > 0:
                        hi += c * b
                    else:
                        lo += c * b
                s = v if s is None else s + v
            if s is None:
                return z3.IntVal(0)
            if lo >= 0 and hi < m:
                self.hi[x.get_id()] = hi
            return self.wrap(s, w, lo, hi)
        if k == z3.Z3_OP_ZERO_EXT:
            self.hi[x.get_id()] = self.hi[x.arg(0).get_id()]
            return a[0]
        if k == z3.Z3_OP_SIGN_EXT:
            w0 = x.arg(0).size()
            return z3.If(a[0] >= (1 << (w0 - 1)), a[0] + (m - (1 << w0)), a[0])
        if k == z3.Z3_OP_CONCAT:
            s = None
            for c, v in zip(x.children(), a):
                s = v if s is None else s * (1 << c.size()) + v
            h = 0
            for c in x.children():
                h = h * (1 << c.size()) + self.hi[c.get_id()]
            self.hi[x.get_id()] = h
            if sum(1 for c in x.children() if not z3.is_bv_value(c)) > 1:
                r = self.new(w, 'n')
                if not self.opaque:
                    self.side.append(r == s)
                self.side.append(r <= h)
                return r
            return s
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            w0 = x.arg(0).size()
            r = self.new(w, 'x')
            s = a[0]
            e = r
            if lo:
                l = self.new(lo, 'x')
                e = r * (1 << lo) + l
            if hi < w0 - 1:
                h = self.new(w0 - 1 - hi, 'x')
                e = h * (1 << (hi + 1)) + e
            if not self.opaque:
                self.side.append(s == e)
            return r
        if k == z3.Z3_OP_ITE:
            self.hi[x.get_id()] = max(self.hi[x.arg(1).get_id()], self.hi[x.arg(2).get_id()])
            return z3.If(*a)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long():
            d = x.arg(1).as_long()
            q = self.any(0, (m - 1) // d)
            r = self.any(0, d - 1)
            self.side.append(a[0] == q * d + r)
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        return self.new(w, 'u')

    def linear(self, x, depth=0):
        """flatten sums: [(term or None, coefficient)]"""
        w = x.size()
        m = 1 << w

        def sg(c):
            c %= m
            return c - m if c >= m // 2 else c
        acc = {}
        const = [0]

        def go(t, c):
            if z3.is_bv_value(t):
                const[0] += c * sg(t.as_long())
                return
            kk = t.decl().kind()
            if kk == z3.Z3_OP_BADD:
                for u in t.children():
                    go(u, c)
                return
            if kk == z3.Z3_OP_BSUB:
                go(t.arg(0), c)
                for u in t.children()[1:]:
                    go(u, -c)
                return
            if kk == z3.Z3_OP_BNEG:
                go(t.arg(0), -c)
                return
            if kk == z3.Z3_OP_BMUL:
                ks = [u for u in t.children() if z3.is_bv_value(u)]
                ot = [u for u in t.children() if not z3.is_bv_value(u)]
                if len(ot) <= 1:
                    p = c
                    for u in ks:
                        p *= sg(u.as_long())
                    if ot:
                        go(ot[0], p)
                    else:
                        const[0] += p
                    return
                if t.get_id() not in self.cache or t is x or t.get_id() == x.get_id():
                    if t.get_id() == x.get_id():
                        # product of unknowns: opaque
                        self.keep.append(t)
                        o = self.opq.get(t.get_id()) if hasattr(self, 'opq') else None
                        if o is None:
                            if not hasattr(self, 'opq'):
                                self.opq = {}
                            o = z3.BitVec('opq!%d' % t.get_id(), w)
                            self.keep.append(o)
                            self.opq[t.get_id()] = o
                            self.cache[o.get_id()] = self.new(w, 'm')
                        acc.setdefault(o.get_id(), [o, 0])[1] += c
                        return
            acc.setdefault(t.get_id(), [t, 0])[1] += c
        go(x, 1)
        out = [(t, sg(c)) for t, c in acc.values() if sg(c)]
        k0 = sg(const[0])
        if k0 or not out:
            out.append((None, k0))
        return out


def prove(formulas, timeout, opaque=False):
    """formulas: pure bit-vector assertions; True if unsatisfiable over the integers restatement"""
    L = Lia(opaque)
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', timeout)
    for f in formulas:
        L.facts(f)
    fs = [L.tr(f) for f in formulas]
    for f in fs:
        s.add(f)
    for f in L.side:
        s.add(f)
    return s.check() == z3.unsat
