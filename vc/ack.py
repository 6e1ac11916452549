"""Reduction of an obligation to pure bit vectors: applications of uninterpreted functions, array reads and datatype
accessors become constants, with functional consistency between applications of the same function.  What is dropped
only weakens the hypotheses, so 'unsat' carries over to the original obligation."""
import z3


class Ack:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.apps = {}
        self.n = 0
        self.facts = []

    def const(self, sort):
        self.n += 1
        return z3.Const('ack!%d' % self.n, sort)

    def is_pure(self, s):
        return s.kind() in (z3.Z3_BV_SORT, z3.Z3_BOOL_SORT)

    def tr(self, e):
        # iterative post-order
        stack = [(e, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in self.cache:
                continue
            if z3.is_quantifier(x) or not z3.is_app(x):
                self.put(x, self.const(x.sort()) if self.is_pure(x.sort()) else x)
                continue
            ch = x.children()
            if not ch:
                self.put(x, x)
                continue
            if x.decl().kind() == z3.Z3_OP_SELECT and self.is_pure(x.sort()):
                y = expand(x)
                if y is not None:
                    if y.get_id() in self.cache:
                        self.put(x, self.cache[y.get_id()])
                    else:
                        self.keep.append(y)
                        stack.append((x, False))
                        stack.append((y, False))
                    continue
            if not done:
                stack.append((x, True))
                for c in ch:
                    if c.get_id() not in self.cache and self.is_pure(c.sort()):
                        stack.append((c, False))
                continue
            k = x.decl().kind()
            if not self.is_pure(x.sort()):
                self.put(x, x)
                continue
            pure = all(self.is_pure(c.sort()) for c in ch)
            if pure and k in DIVS and not z3.is_bv_value(ch[1]):
                # division by an unknown number: only that it is a function, and that a remainder is smaller than the divisor
                a, b = [self.cache[c.get_id()] for c in ch]
                c = self.const(x.sort())
                self.apps.setdefault((DIVS[k], x.sort().size()), []).append(([a, b], c))
                if DIVS[k] == 'urem':
                    self.facts.append(z3.Implies(b != 0, z3.ULT(c, b)))
                    self.facts.append(z3.Implies(z3.ULT(a, b), c == a))
                self.put(x, c)
                continue
            if pure and k != z3.Z3_OP_UNINTERPRETED:
                self.put(x, x.decl()(*[self.cache[c.get_id()] for c in ch]) if k not in NARY else NARY[k](*[self.cache[c.get_id()] for c in ch]))
                continue
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE) and not pure:
                self.put(x, self.const(x.sort()))
                continue
            # application: key by declaration and impure arguments
            imp = tuple(c.get_id() for c in ch if not self.is_pure(c.sort()))
            self.keep.extend(ch)
            key = (x.decl().name(), x.decl().get_id(), imp)
            args = [self.cache[c.get_id()] for c in ch if self.is_pure(c.sort())]
            c = self.const(x.sort())
            self.apps.setdefault(key, []).append((args, c))
            self.put(x, c)
        return self.cache[e.get_id()]

    def put(self, x, y):
        self.keep.append(x)
        self.cache[x.get_id()] = y

    def consistency(self, limit=600):
        out = []
        for key, l in self.apps.items():
            for i in range(len(l)):
                for j in range(i):
                    if len(out) > limit:
                        return out
                    a, b = l[i], l[j]
                    c = [x == y for x, y in zip(a[0], b[0])]
                    out.append(z3.Implies(z3.And(*c) if c else z3.BoolVal(True), a[1] == b[1]))
        return out


def expand(x):
    """read over write; None if the array is not a written one"""
    a, j = x.arg(0), x.arg(1)
    if not z3.is_app(a):
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.simplify(z3.Select(a, j), bv_le2extract=False)
        return None
    k = a.decl().kind()
    if k == z3.Z3_OP_STORE:
        return z3.If(a.arg(1) == j, a.arg(2), z3.Select(a.arg(0), j))
    if k == z3.Z3_OP_ITE:
        return z3.If(a.arg(0), z3.Select(a.arg(1), j), z3.Select(a.arg(2), j))
    if k == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return None


NARY = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or,
        z3.Z3_OP_BADD: lambda *a: _fold(lambda x, y: x + y, a), z3.Z3_OP_BMUL: lambda *a: _fold(lambda x, y: x * y, a),
        z3.Z3_OP_BAND: lambda *a: _fold(lambda x, y: x & y, a), z3.Z3_OP_BOR: lambda *a: _fold(lambda x, y: x | y, a),
        z3.Z3_OP_BXOR: lambda *a: _fold(lambda x, y: x ^ y, a), z3.Z3_OP_CONCAT: z3.Concat,
        z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_DISTINCT: z3.Distinct}


DIVS = {z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv'}


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def reduce(pc, goal):
    """pure bit-vector assertions whose unsatisfiability implies pc |= goal"""
    A = Ack()
    seen = set()
    out = []
    keep = []
    for c in pc:
        c = z3.simplify(c, bv_le2extract=False)
        if z3.is_true(c) or c.get_id() in seen:
            continue
        seen.add(c.get_id())
        keep.append(c)
        out.append(A.tr(c))
    out.append(A.tr(z3.simplify(z3.Not(goal), bv_le2extract=False)))
    return out, A.consistency() + A.facts, A


def prove_bv(fs, timeout):
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    return s.check() == z3.unsat
