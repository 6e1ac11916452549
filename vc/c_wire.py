"""Functional contracts of the wire codec: the AMQP representation of strings, field values,
arrays and tables, as (uninterpreted, recursively axiomatised) functions of the octets.

  VAL(a,p)        value represented at octet p of a          NXT(a,p)  first octet after it
  VOK(d,a,p,e)    the octets [p,e) start with a well formed value (d: nesting depth)
  PREA(x,a,s,p)   x extended by the values represented in [s,p)      (arrays)
  PRET(x,a,s,p)   x extended by the (name,value) pairs in [s,p)      (tables)
  OKA/OKT(d,a,s,e) [s,e) is entirely made of well formed elements

Positions are absolute offsets into the underlying object."""
import z3
from engine import NULL, Exc, Outcomes, Ptr, State, ToolLimit, as_int, bv, simp, ARR, BV64
from contract import Contract
from c_codec import Buf, LIM, NS, OUT_FV, OUT_SEQ, OUT_STR, OUT_VB, make_out, mkbuf, pad_args
import libmodels as L
from libmodels import FVR, I8, I64, PT, SEQ, FvElem, SeqVal, StrV, VarV, ZARR, canon, mkfv, seq_nil, seq_snoc
from c_frame import be

B = z3.BoolSort()
VAL = z3.Function('VAL', ARR, BV64, FVR)
NXT = z3.Function('NXT', ARR, BV64, BV64)
VOK = z3.Function('VOK', BV64, ARR, BV64, BV64, B)
PREA = z3.Function('PREA', SEQ, ARR, BV64, BV64, SEQ)
PRET = z3.Function('PRET', SEQ, ARR, BV64, BV64, SEQ)
OKA = z3.Function('OKA', BV64, ARR, BV64, BV64, B)
OKT = z3.Function('OKT', BV64, ARR, BV64, BV64, B)
REA = z3.Function('REA', BV64, ARR, BV64, BV64, BV64, B)   # d,a,s,p,e: p is reached from s by well formed elements
RET = z3.Function('RET', BV64, ARR, BV64, BV64, BV64, B)
CAN = z3.Function('CAN', ARR, BV64, BV64, ARR)             # octets [o,o+n), zero elsewhere (extensional)
PFX = z3.Function('PFX', SEQ, BV64, SEQ)                   # first i elements

K = L
VEMPTY = FVR.mkfv(bv(ord('V'), 8), bv(K.K_BOOL, 8), bv(0), bv(0), ZARR, seq_nil)


def num(w, e, signed):
    e = e if e.size() == 64 else (z3.SignExt if signed else z3.ZeroExt)(64 - e.size(), e)
    return e


FIXED = {  # type -> (octets, variant kind, signed)
    'b': (1, K.K_I64, True), 'B': (1, K.K_U64, False), 's': (2, K.K_I64, True), 'U': (2, K.K_I64, True), 'u': (2, K.K_U64, False),
    'I': (4, K.K_I64, True), 'i': (4, K.K_U64, False), 'l': (8, K.K_I64, True), 'L': (8, K.K_I64, True), 'T': (8, K.K_U64, False),
}
RAWT = {'f': 4, 'd': 8, 'D': 5}


def table_of_types():
    return sorted(FIXED) + sorted(RAWT) + ['t', 'S', 'x', 'A', 'F', 'V']


def vdef(a, p, e, d, t):
    """(well-formedness, dict of value components, next) of a value of type t at p"""
    if t in FIXED:
        n, k, sg = FIXED[t]
        return z3.UGE(e - p, bv(1 + n)), {'ty': 's' if t == 'U' else t, 'kind': k, 'num': num(n, be(a, p + 1, n), sg)}, p + 1 + n
    if t == 't':
        return z3.UGE(e - p, bv(2)), {'ty': t, 'kind': K.K_BOOL, 'num': z3.If(z3.Select(a, p + 1) != 0, bv(1), bv(0))}, p + 2
    if t in RAWT:
        n = RAWT[t]
        return z3.UGE(e - p, bv(1 + n)), {'ty': t, 'kind': K.K_VB, 'len': bv(n), 'bytes': lambda i: z3.Select(a, p + 1 + i)}, p + 1 + n
    if t in ('S', 'x'):
        n = z3.ZeroExt(32, be(a, p + 1, 4))
        return z3.And(z3.UGE(e - p, bv(5)), z3.ULE(n, e - p - 5)), \
            {'ty': t, 'kind': K.K_STR if t == 'S' else K.K_VB, 'len': n, 'bytes': lambda i: z3.Select(a, p + 5 + i)}, p + 5 + n
    if t in ('A', 'F'):
        n = z3.ZeroExt(32, be(a, p + 1, 4))
        ok, pre = (OKA, PREA) if t == 'A' else (OKT, PRET)
        return z3.And(z3.UGE(e - p, bv(5)), z3.ULE(n, e - p - 5), ok(d, a, p + 5, p + 5 + n)), \
            {'ty': t, 'kind': K.K_VFV if t == 'A' else K.K_TAB, 'ref': pre(seq_nil, a, p + 5, p + 5 + n)}, p + 5 + n
    if t == 'V':
        return z3.UGE(e - p, bv(1)), {'ty': t, 'kind': K.K_BOOL, 'num': bv(0)}, p + 1
    raise KeyError(t)


def can_str(a, o, n):
    return StrV(n, CAN(a, o, n))


def can_inst(st, i):
    """definition of CAN at index i, for every CAN term introduced on this path"""
    for a, o, n in st.ghost.get('cans', ()):
        st.assume(z3.Select(CAN(a, o, n), i) == z3.If(z3.ULT(i, n), z3.Select(a, o + i), bv(0, 8)))


def comp_eq(term, comp, i):
    """FVal term has the given components (bytes compared at the arbitrary index i)"""
    c = [FVR.ty(term) == bv(ord(comp['ty']), 8), FVR.kind(term) == bv(comp['kind'], 8)]
    if 'num' in comp:
        c.append(FVR.num(term) == comp['num'])
    if 'len' in comp:
        c.append(FVR.len(term) == comp['len'])
        c.append(z3.Implies(z3.ULT(i, comp['len']), z3.Select(FVR.arr(term), i) == comp['bytes'](i)))
        # definition of CAN at this index
    if 'ref' in comp:
        c.append(FVR.ref(term) == comp['ref'])
    return z3.And(*c)


class Abs:
    """absolute view of a Buffer: array, absolute offset, absolute end"""

    def __init__(self, ex, st, p):
        b = Buf(ex, st, p)
        self.b = b
        if not (isinstance(b.data, Ptr) and b.data.rid):
            raise ToolLimit('buffer without data')
        if st.mem[b.data.rid].arr is None:
            ex.to_arr(st, b.data.rid)
        self.rid = b.data.rid
        self.a = st.mem[b.data.rid].arr
        self.p = simp(b.data.off + b.off)
        self.e = simp(b.data.off + b.len)


class WireDecoder(Contract):
    """common part of the functional decoder contracts"""
    kind = None

    def __init__(self, name):
        self.name = name
        self.func = NS + name + r'\('
        super().__init__()

    def setup(self, ex):
        st = State()
        b = mkbuf(ex, st, 'in', ro=True)
        args = [make_out(ex, st, self.kind), b]
        pad_args(ex, args)
        yield st, args, {}

    def common(self, ex, old, st, args):
        o, n = Buf(ex, old, args[1]), Buf(ex, st, args[1])
        same = isinstance(n.data, Ptr) and n.data.rid == o.data.rid
        return [('buffer still denotes the same octets',
                 z3.And(n.data.off == o.data.off, n.len == o.len) if same else z3.BoolVal(False))]

    def move(self, ex, st, args, newabs):
        b = Buf(ex, st, args[1])
        ex.store(st, args[1].add(16), simp(newabs - b.data.off), I64)

    def fail_state(self, ex, st, args):
        """after a failed decode the buffer offset and the output are unspecified (offset within the buffer)"""
        b = Buf(ex, st, args[1])
        no = ex.fresh('off', 64)
        st.assume(z3.UGE(no, b.off))
        st.assume(z3.ULE(no, b.len))
        ex.store(st, args[1].add(16), no, I64)

    def pre(self, ex, st, args):
        ex.oblige(st, 'precondition of %s: valid buffer' % self.name, Buf(ex, st, args[1]).valid(ex))


class StringDecoder(WireDecoder):
    kind = OUT_STR

    def __init__(self, name, w):
        self.w = w
        self.title = name + ': yields exactly the string of the length prefix, or fails when it is not all there'
        super().__init__(name)

    def spec(self, v):
        n = be(v.a, v.p, self.w)
        n = z3.ZeroExt(64 - 8 * self.w, n)
        return z3.And(z3.UGE(v.e - v.p, bv(self.w)), z3.ULE(n, v.e - v.p - self.w)), n

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        v, w = Abs(ex, old, args[1]), Abs(ex, st, args[1])
        ok, n = self.spec(v)
        s = L.getstr(ex, st, args[0])
        i = ex.fresh('i', 64)
        r = outcome[1]
        return self.common(ex, old, st, args) + [
            ('succeeds exactly when prefix and string are in the buffer', r == ok),
            ('string has the prefixed length', z3.Implies(r, s.len == n)),
            ('string octets are those received', z3.Implies(z3.And(r, z3.ULT(i, n)), s.at(i) == z3.Select(v.a, v.p + self.w + i))),
            ('exactly prefix and string are consumed', z3.Implies(r, w.p == v.p + self.w + n)),
            ('offset stays in range', z3.And(z3.UGE(w.p, v.p), z3.ULE(w.p, v.e)))]

    def apply(self, ex, st, args, ins):
        self.pre(ex, st, args)
        v = Abs(ex, st, args[1])
        ok, n = self.spec(v)
        t, f = None, None
        out = []
        if ex.feasible(st, z3.Not(ok)):
            f = st.fork()
            f.assume(simp(z3.Not(ok)))
            self.fail_state(ex, f, args)
            L.setstr(ex, f, args[0], StrV.sym(ex, 'partial', f))
            f.ghost['failnames'] = f.ghost.get('failnames', ()) + (v.p,)
            out.append((f, 'ret', z3.BoolVal(False)))
        if ex.feasible(st, ok):
            st.assume(simp(ok))
            L.setstr(ex, st, args[0], can_str(v.a, simp(v.p + self.w), simp(n)))
            st.ghost['cans'] = st.ghost.get('cans', ()) + ((v.a, simp(v.p + self.w), simp(n)),)
            self.move(ex, st, args, v.p + self.w + n)
            st.ghost['names'] = st.ghost.get('names', ()) + (v.p,)
            out.append((st, 'ret', z3.BoolVal(True)))
        return Outcomes(out)


class BytesDecoder(WireDecoder):
    kind = OUT_VB
    title = 'Types::decodeByteVector: yields exactly the requested octets, or fails when they are not all there'

    def __init__(self):
        super().__init__('Types::decodeByteVector')

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        v, w = Abs(ex, old, args[1]), Abs(ex, st, args[1])
        r, n = outcome[1], args[2]
        i = ex.fresh('i', 64)
        ln, b = L.vec_bytes(ex, st, args[0])
        res = [('succeeds exactly when the octets are in the buffer', r == z3.ULE(n, v.e - v.p)),
               ('vector has the requested length', z3.Implies(r, ln == n)),
               ('exactly those octets are consumed', z3.Implies(r, w.p == v.p + n))]
        if b.rid:
            a = st.mem[b.rid].arr
            if a is None:
                ex.to_arr(st, b.rid)
                a = st.mem[b.rid].arr
            res.append(('octets are those received', z3.Implies(z3.And(r, z3.ULT(i, n)), z3.Select(a, b.off + i) == z3.Select(v.a, v.p + i))))
        else:
            res.append(('octets are those received', z3.Implies(r, n == 0)))
        return self.common(ex, old, st, args) + res

    def apply(self, ex, st, args, ins):
        self.pre(ex, st, args)
        v = Abs(ex, st, args[1])
        n = args[2]
        ok = z3.ULE(n, v.e - v.p)
        out = []
        if ex.feasible(st, z3.Not(ok)):
            f = st.fork()
            f.assume(simp(z3.Not(ok)))
            out.append((f, 'ret', z3.BoolVal(False)))
        if ex.feasible(st, ok):
            st.assume(simp(ok))
            L.new_vec(ex, st, args[0], StrV(simp(n), canon(v.a, v.p, simp(n))))
            self.move(ex, st, args, v.p + n)
            out.append((st, 'ret', z3.BoolVal(True)))
        return Outcomes(out)


def depth_of(args):
    return args[2] if len(args) > 2 else bv(0)


class ValueDecoder(WireDecoder):
    kind = OUT_FV
    title = 'Types::decodeFieldValue: type octet selects representation, value and extent; malformed values fail'

    def __init__(self):
        super().__init__('Types::decodeFieldValue')

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        v, w = Abs(ex, old, args[1]), Abs(ex, st, args[1])
        r, d = outcome[1], depth_of(args)
        i = ex.fresh('i', 64)
        can_inst(st, i)
        t = z3.Select(v.a, v.p)
        some = z3.UGE(v.e - v.p, bv(1))
        new = L.fv_term(ex, st, args[0])
        oldv = L.fv_term(ex, old, args[0])
        res = []
        known = []
        for c in table_of_types():
            is_t = z3.And(some, t == bv(ord(c), 8))
            known.append(t == bv(ord(c), 8))
            if not ex.feasible(st, is_t):
                continue
            ok, comp, nxt = vdef(v.a, v.p, v.e, d, c)
            if c in 'AF':
                fits = z3.And(*ok.children()[:2])
                inner = ok.children()[2]
                res.append(("'%s': accepted only when well formed" % c, z3.Implies(z3.And(is_t, r), ok)))
                res.append(("'%s': well formed, shallowly nested values are accepted" % c, z3.Implies(z3.And(is_t, ok, z3.ULE(d, bv(16))), r)))
            else:
                res.append(("'%s': accepted exactly when all there" % c, z3.Implies(is_t, r == ok)))
            if c == 'V':
                res.append(("'V': output left alone", z3.Implies(z3.And(is_t, r), new == oldv)))
            else:
                res.append(("'%s': value as represented" % c, z3.Implies(z3.And(is_t, r), comp_eq(new, comp, i))))
            res.append(("'%s': extent as represented" % c, z3.Implies(z3.And(is_t, r), w.p == nxt)))
        res.append(('unknown types fail', z3.Implies(z3.Or(z3.Not(some), z3.Not(z3.Or(*known))), z3.Not(r))))
        res.append(('offset stays in range', z3.And(z3.UGE(w.p, v.p), z3.ULE(w.p, v.e))))
        return self.common(ex, old, st, args) + res

    def apply(self, ex, st, args, ins):
        self.pre(ex, st, args)
        v = Abs(ex, st, args[1])
        d = depth_of(args)
        ok = VOK(d, v.a, v.p, v.e)
        f = st.fork()
        f.assume(z3.Not(ok))
        self.fail_state(ex, f, args)
        t = z3.Const('partialfv!%d' % L.ex_next(ex), FVR)
        ex.aset(f, args[0], FvElem(t))
        ex.store(f, args[0].add(40), FVR.ty(t), I8)
        oldt = L.fv_term(ex, st, args[0])
        st.assume(ok)
        val = simp(z3.If(z3.Select(v.a, v.p) == bv(ord('V'), 8), oldt, VAL(v.a, v.p)))
        ex.aset(st, args[0], FvElem(val))
        ex.store(st, args[0].add(40), FVR.ty(val), I8)
        nx = NXT(v.a, v.p)
        st.assume(z3.UGT(nx, v.p))
        st.assume(z3.ULE(nx, v.e))
        self.move(ex, st, args, nx)
        # definitional unfolding of the sequence functions at this element
        elem = z3.If(z3.Select(v.a, v.p) == bv(ord('V'), 8), VEMPTY, VAL(v.a, v.p))
        for x, s, dd in st.ghost.get('prea', ()):
            st.assume(PREA(x, v.a, s, nx) == seq_snoc(PREA(x, v.a, s, v.p), bv(0), ZARR, elem))
            st.assume(z3.Implies(REA(dd, v.a, s, v.p, v.e), REA(dd, v.a, s, nx, v.e)))
            f.assume(z3.Implies(z3.And(REA(dd, v.a, s, v.p, v.e), z3.ULT(v.p, v.e)), z3.Not(OKA(dd, v.a, s, v.e))))
        for x, s, dd in st.ghost.get('pret', ()):
            # an entry starts at q with the name, whose value follows at q+1+length
            for q in st.ghost.get('names', ()):
                n = z3.ZeroExt(56, z3.Select(v.a, q))
                here = simp(v.p == q + 1 + n)
                if z3.is_false(here):
                    continue
                st.assume(z3.Implies(here, PRET(x, v.a, s, nx) == seq_snoc(PRET(x, v.a, s, q), n, CAN(v.a, q + 1, n), elem)))
                st.assume(z3.Implies(z3.And(here, z3.ULE(n, v.e - q - 1), RET(dd, v.a, s, q, v.e)), RET(dd, v.a, s, nx, v.e)))
                f.assume(z3.Implies(z3.And(here, RET(dd, v.a, s, q, v.e), z3.ULT(q, v.e)), z3.Not(OKT(dd, v.a, s, v.e))))
        return Outcomes([(st, 'ret', z3.BoolVal(True)), (f, 'ret', z3.BoolVal(False))])


class SeqDecoder(WireDecoder):
    kind = OUT_SEQ

    def __init__(self, name, which):
        self.which = which
        self.PRE, self.OK, self.RE, self.gk = (PREA, OKA, REA, 'prea') if which == 'A' else (PRET, OKT, RET, 'pret')
        self.title = name + ': appends exactly the elements inside the length prefix, in order; malformed contents fail'
        super().__init__(name)

    def spec(self, v):
        n = z3.ZeroExt(32, be(v.a, v.p, 4))
        s = simp(v.p + 4)
        return z3.And(z3.UGE(v.e - v.p, bv(4)), z3.ULE(n, v.e - v.p - 4)), s, simp(s + n)

    def setup(self, ex):
        for st, args, ctx in super().setup(ex):
            v = Abs(ex, st, args[1])
            fits, s, e = self.spec(v)
            x = L.getseq(ex, st, args[0]).t
            d = depth_of(args)
            st.ghost[self.gk] = ((x, s, d),)
            st.assume(self.PRE(x, v.a, s, s) == x)
            st.assume(self.RE(d, v.a, s, s, e))
            yield st, args, {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        v, w = Abs(ex, old, args[1]), Abs(ex, st, args[1])
        r, d = outcome[1], depth_of(args)
        fits, s, e = self.spec(v)
        st.assume(z3.Implies(self.RE(d, v.a, s, e, e), self.OK(d, v.a, s, e)))
        if self.which == 'F':
            # an entry whose name does not fit makes the table malformed: the entry position is the buffer offset at the failure
            for q in self.fail_points(ex, st):
                n = z3.ZeroExt(56, z3.Select(v.a, q))
                st.assume(z3.Implies(z3.And(self.RE(d, v.a, s, q, e), z3.ULT(q, e), z3.UGT(n, e - q - 1)), z3.Not(self.OK(d, v.a, s, e))))
        x = L.getseq(ex, old, args[0]).t
        out = L.getseq(ex, st, args[0]).t
        return self.common(ex, old, st, args) + [
            ('accepted only when complete and well formed', z3.Implies(r, z3.And(fits, self.OK(d, v.a, s, e)))),
            ('complete, well formed, shallowly nested contents are accepted',
             z3.Implies(z3.And(fits, self.OK(d, v.a, s, e), z3.ULE(d, bv(16))), r)),
            ('exactly the represented elements are appended in order', z3.Implies(r, out == self.PRE(x, v.a, s, e))),
            ('exactly prefix and contents are consumed', z3.Implies(r, w.p == e)),
            ('offset stays in range', z3.And(z3.UGE(w.p, v.p), z3.ULE(w.p, v.e)))]

    def fail_points(self, ex, st):
        return st.ghost.get('failnames', ())

    def apply(self, ex, st, args, ins):
        self.pre(ex, st, args)
        v = Abs(ex, st, args[1])
        d = depth_of(args)
        fits, s, e = self.spec(v)
        ok = z3.And(fits, self.OK(d, v.a, s, e))
        f = st.fork()
        f.assume(z3.Implies(z3.ULE(d, bv(16)), z3.Not(ok)))
        self.fail_state(ex, f, args)
        ex.aset(f, args[0], SeqVal(z3.Const('partialseq!%d' % L.ex_next(ex), SEQ)))
        st.assume(fits)
        st.assume(self.OK(d, v.a, s, e))
        x = L.getseq(ex, st, args[0]).t
        ex.aset(st, args[0], SeqVal(self.PRE(x, v.a, s, e)))
        self.move(ex, st, args, e)
        return Outcomes([(st, 'ret', z3.BoolVal(True)), (f, 'ret', z3.BoolVal(False))])


def wire_candidates(ex, st, fr, entry, entry_phi, modset, phis):
    from c_codec import buffer_auto
    out = buffer_auto(ex, st, fr, entry, entry_phi, modset, phis)
    bufs, seqs = [], []
    for rid, o, n in modset:
        if rid not in entry.mem:
            continue
        reg = ex.regions[rid]
        if n == 'abs' and isinstance(entry.mem[rid].absd.get(o), SeqVal):
            if (rid, o) not in seqs:
                seqs.append((rid, o))
        elif ((reg.tyname and reg.tyname.endswith('amqpprox::Buffer')) or reg.name.endswith(' object')) and rid not in bufs:
            bufs.append(rid)
    for gk, PRE, RE in (('prea', PREA, REA), ('pret', PRET, RET)):
        for x, s, dd in entry.ghost.get(gk, ()):
            for b in bufs:
                try:
                    Abs(ex, entry, Ptr(b, 0))
                except ToolLimit:
                    continue
                out.append(lambda ex2, q, f, b=b, s=s, dd=dd, RE=RE: (lambda v: RE(dd, v.a, s, v.p, v.e))(Abs(ex2, q, Ptr(b, 0))))
                for r, o in seqs:
                    out.append(lambda ex2, q, f, b=b, s=s, x=x, r=r, o=o, PRE=PRE:
                               (lambda v: L.getseq(ex2, q, Ptr(r, o)).t == PRE(x, v.a, s, v.p))(Abs(ex2, q, Ptr(b, 0))))
    return out


def wire_decoders():
    return [StringDecoder('Types::decodeLongString', 4), StringDecoder('Types::decodeShortString', 1), BytesDecoder(), ValueDecoder(),
            SeqDecoder('Types::decodeFieldArray', 'A'), SeqDecoder('Types::decodeFieldTable', 'F')]
