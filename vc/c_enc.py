"""Functional contracts of the encoders.

  ELEN(v), EBY(v,k)      number of octets of the representation of value v, and its k-th octet
  LENP(s,i)              octets taken by the first i elements (entries) of sequence s;  SLEN(s) = LENP(s, length)
  SBY(s,r)               r-th octet of the concatenated elements (entries) of s
  WT(v), WTS(s)          v (every element of s) holds the variant alternative its type stands for
  EOK(v), EOKS(s)        every field name inside is at most 255 octets and every type is known

J is one arbitrary octet position, fixed per contract: what is proved for it holds for all positions."""
import z3
from engine import NULL, Exc, Outcomes, Ptr, State, ToolLimit, as_int, bv, simp, ARR, BV64
from contract import Contract
from c_codec import Buf, LIM, NS, mkbuf, pad_args
from c_wire import Abs, FIXED, RAWT, K, table_of_types
import libmodels as L
from libmodels import FVR, I8, I64, PT, SEQ, FvElem, SeqVal, StrV, ZARR, seq_at, seq_len, seq_nlen, seq_narr

B = z3.BoolSort()
ELEN = z3.Function('ELEN', FVR, BV64)
EBY = z3.Function('EBY', FVR, BV64, z3.BitVecSort(8))
EOK = z3.Function('EOK', FVR, B)
WT = z3.Function('WT', FVR, B)
WTS = z3.Function('WTS', SEQ, B)
EOKS = z3.Function('EOKS', SEQ, B)
LENPA = z3.Function('LENPA', SEQ, BV64, BV64)
LENPT = z3.Function('LENPT', SEQ, BV64, BV64)
SBYA = z3.Function('SBYA', SEQ, BV64, z3.BitVecSort(8))
SBYT = z3.Function('SBYT', SEQ, BV64, z3.BitVecSort(8))
ROOM = bv(1 << 32)
J = z3.BitVec('J', 64)

KIND_OF = {}
for _t, (_n, _k, _s) in FIXED.items():
    KIND_OF[_t] = _k
KIND_OF.update({'t': K.K_BOOL, 'V': None, 'S': K.K_STR, 'x': K.K_VB, 'A': K.K_VFV, 'F': K.K_TAB, 'f': K.K_VB, 'd': K.K_VB, 'D': K.K_VB})
ENC_TYPES = [t for t in table_of_types() if t != 'U']


def byte_of(v, w, k):
    """k-th octet (0 = most significant) of the low w octets of the 64 bit v"""
    s = 8 * (w - 1 - k)
    return z3.Extract(s + 7, s, v)


def sel(k, opts, last):
    """value by position: opts = octets 0..n-1, otherwise last"""
    e = last
    for i in reversed(range(len(opts))):
        e = z3.If(k == bv(i), opts[i], e)
    return e


def slen(s, which):
    return (LENPA if which == 'A' else LENPT)(s, seq_len(s))


def edef(v, t):
    """(length, octet function, encodable) of v, given its type is t"""
    ty = bv(ord(t), 8)
    if t in FIXED:
        n = FIXED[t][0]
        return bv(1 + n), lambda k: sel(k, [ty] + [byte_of(FVR.num(v), n, i) for i in range(n)], bv(0, 8)), z3.BoolVal(True)
    if t == 't':
        return bv(2), lambda k: sel(k, [ty], z3.If(FVR.num(v) != 0, bv(1, 8), bv(0, 8))), z3.BoolVal(True)
    if t in RAWT:
        return FVR.len(v) + 1, lambda k: sel(k, [ty], z3.Select(FVR.arr(v), k - 1)), z3.BoolVal(True)
    if t in ('S', 'x'):
        n = FVR.len(v)
        return n + 5, lambda k: sel(k, [ty] + [byte_of(n, 4, i) for i in range(4)], z3.Select(FVR.arr(v), k - 5)), z3.BoolVal(True)
    if t in ('A', 'F'):
        n = slen(FVR.ref(v), t)
        by = SBYA if t == 'A' else SBYT
        return n + 5, lambda k: sel(k, [ty] + [byte_of(n, 4, i) for i in range(4)], by(FVR.ref(v), k - 5)), EOKS(FVR.ref(v))
    if t == 'V':
        return bv(1), lambda k: ty, z3.BoolVal(True)
    raise KeyError(t)


def wt_def(v):
    """what WT(v) means at the top: the alternative matches the type"""
    c = []
    for t, k in KIND_OF.items():
        if k is not None and t != 'U':
            c.append(z3.Implies(FVR.ty(v) == bv(ord(t), 8), FVR.kind(v) == bv(k, 8)))
            if t in ('A', 'F'):
                c.append(z3.Implies(FVR.ty(v) == bv(ord(t), 8), WTS(FVR.ref(v))))
    return z3.And(*c)


def bounds_of(v):
    """sizes are far from overflow"""
    r = FVR.ref(v)
    return z3.And(z3.ULE(ELEN(v), LIM), z3.ULE(FVR.len(v), LIM), z3.ULE(slen(r, 'A'), LIM), z3.ULE(slen(r, 'F'), LIM),
                  z3.ULE(seq_len(r), LIM))


class Enc(Contract):
    safe_only = False

    def __init__(self, name, safe_only=False):
        self.name = name
        self.func = NS + name + r'\('
        self.safe_only = safe_only
        super().__init__()

    def setup(self, ex):
        st = State()
        b = mkbuf(ex, st, 'out')
        v = Buf(ex, st, b)
        st.assume(z3.ULT(v.len, ROOM))
        st.assume(z3.ULE(J, LIM))
        arg = self.value(ex, st)
        st.ghost['arr0'] = (v.data.rid, st.mem[v.data.rid].arr)
        args = [b, arg]
        pad_args(ex, args)
        yield st, args, {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        o, n = Buf(ex, old, args[0]), Buf(ex, st, args[0])
        same = isinstance(n.data, Ptr) and n.data.rid == o.data.rid
        a0, a1 = old.mem[o.data.rid].arr, st.mem[o.data.rid].arr
        r = outcome[1]
        P, E = simp(o.data.off + o.off), simp(o.data.off + o.len)
        W = simp(n.data.off + n.off)
        res = [('buffer still denotes the same memory', z3.And(n.data.off == o.data.off, n.len == o.len) if same else z3.BoolVal(False)),
               ('write position stays within the buffer and never moves back', z3.And(z3.ULE(n.off, n.len), z3.UGE(n.off, o.off))),
               ('octets before the write position are left alone', z3.Implies(z3.ULT(J, P), z3.Select(a1, J) == z3.Select(a0, J)))]
        ln, by, ok = self.spec(ex, old, args, ctx)
        room = o.len - o.off
        res += [('success is reported only when everything fitted', z3.Implies(r, z3.And(z3.ULE(ln, room), W == P + ln))),
                ('octets after the encoding are left alone', z3.Implies(z3.And(r, z3.UGE(J, W)), z3.Select(a1, J) == z3.Select(a0, J)))]
        if not self.safe_only:
            res += [('succeeds whenever there is room', z3.Implies(z3.And(ok, z3.ULE(ln, room)), r)),
                    ('octets written are the representation of the value',
                     z3.Implies(z3.And(r, z3.UGE(J, P), z3.ULT(J, W)), z3.Select(a1, J) == by(J - P)))]
        return res

    def apply(self, ex, st, args, ins):
        b = Buf(ex, st, args[0])
        ex.oblige(st, 'precondition of %s: valid buffer' % self.name, b.valid(ex))
        self.pre(ex, st, args)
        ln, by, ok = self.spec(ex, st, args, {})
        room = b.len - b.off
        if not (isinstance(b.data, Ptr) and b.data.rid):
            raise ToolLimit('encoding into no buffer')
        if st.mem[b.data.rid].arr is None:
            ex.to_arr(st, b.data.rid)
        P = simp(b.data.off + b.off)
        E = simp(b.data.off + b.len)
        a0 = st.mem[b.data.rid].arr
        k = z3.BitVec('k!en', 64)
        good = z3.And(ok, z3.ULE(ln, room))
        out = []
        f = st.fork()
        f.assume(simp(z3.Not(good)))
        if ex.feasible(f):
            # failure: octets from the write position to the end of the buffer are unspecified
            h = ex.fresh('partial', 'arr')
            f.wr(b.data.rid).arr = z3.Lambda([k], z3.If(z3.And(z3.UGE(k, P), z3.ULT(k, E)), z3.Select(h, k), z3.Select(a0, k)))
            no = ex.fresh('off', 64)
            f.assume(z3.And(z3.UGE(no, b.off), z3.ULE(no, b.len)))
            self.wlog(f, b.data.rid)
            ex.store(f, args[0].add(16), no, I64)
            self.facts(ex, f, args, P, False)
            out.append((f, 'ret', z3.BoolVal(False)))
        st.assume(simp(good))
        if ex.feasible(st):
            st.wr(b.data.rid).arr = z3.Lambda([k], z3.If(z3.And(z3.UGE(k, P), z3.ULT(k, P + ln)), by(k - P), z3.Select(a0, k)))
            self.wlog(st, b.data.rid)
            ex.store(st, args[0].add(16), simp(b.off + ln), I64)
            self.facts(ex, st, args, P, True)
            out.append((st, 'ret', z3.BoolVal(True)))
        return Outcomes(out)

    def wlog(self, st, rid):
        if st.writes is not None:
            st.writes.append((rid, None, None))

    def pre(self, ex, st, args):
        pass

    def facts(self, ex, st, args, P, ok):
        pass


class EncString(Enc):
    def __init__(self, name, w, safe_only=False):
        self.w = w
        self.title = name + ': length prefix and exactly the octets of the string, or failure'
        super().__init__(name, safe_only)

    def value(self, ex, st):
        r = ex.region(st, 'string', 32)
        L.setstr(ex, st, Ptr(r.id, 0), StrV.sym(ex, 'value', st))
        return Ptr(r.id, 0)

    def spec(self, ex, st, args, ctx):
        s = L.getstr(ex, st, args[1])
        w = self.w
        n = s.len
        ok = z3.ULE(n, bv(255)) if w == 1 else z3.BoolVal(True)
        return simp(n + w), lambda k: sel(k, [byte_of(n, w, i) for i in range(w)], z3.Select(s.arr, k - w)), ok

    def post(self, ex, old, st, args, outcome, ctx):
        res = super().post(ex, old, st, args, outcome, ctx)
        if outcome[0] == 'ret' and self.w == 1:
            s = L.getstr(ex, old, args[1])
            res.append(('strings over 255 octets are refused', z3.Implies(outcome[1], z3.ULE(s.len, bv(255)))))
        return res

    def facts(self, ex, st, args, P, ok):
        s = L.getstr(ex, st, args[1])
        if self.w == 1 and not ok:
            # a field name that does not fit or is too long: the table does not fit or is not encodable
            if z3.is_app(s.len) and s.len.decl().name() == 'seq_name_len':
                q, i = s.len.arg(0), s.len.arg(1)
                entry_facts(st, q, i, 'F')


class EncBytes(Enc):
    title = 'Types::encodeByteVector: exactly the octets of the vector, or failure'

    def __init__(self, safe_only=False):
        super().__init__('Types::encodeByteVector', safe_only)

    def value(self, ex, st):
        r = ex.region(st, 'vector', 24)
        L.new_vec(ex, st, Ptr(r.id, 0), StrV.sym(ex, 'value', st))
        return Ptr(r.id, 0)

    def spec(self, ex, st, args, ctx):
        n, b = L.vec_bytes(ex, st, args[1])
        if not b.rid:
            return bv(0), lambda k: bv(0, 8), z3.BoolVal(True)
        if st.mem[b.rid].arr is None:
            ex.to_arr(st, b.rid)
        a = st.mem[b.rid].arr
        return n, lambda k: z3.Select(a, b.off + k), z3.BoolVal(True)


class EncValue(Enc):
    title = 'Types::encodeFieldValue: type octet and representation of the value, or failure'

    def __init__(self, safe_only=False):
        super().__init__('Types::encodeFieldValue', safe_only)

    def value(self, ex, st):
        t = z3.Const('value!%d' % L.ex_next(ex), FVR)
        st.assume(WT(t))
        st.assume(wt_def(t))
        st.assume(bounds_of(t))
        # definition of the representation at the arbitrary position
        self.t = t
        return L.fv_object(ex, st, t)

    def unfold(self, st, t, k):
        alt = []
        for c in ENC_TYPES:
            ln, by, ok = edef(t, c)
            is_c = FVR.ty(t) == bv(ord(c), 8)
            alt.append(is_c)
            st.assume(z3.Implies(is_c, z3.And(ELEN(t) == ln, EBY(t, k) == by(k), EOK(t) == ok)))
        st.assume(z3.Implies(z3.Not(z3.Or(*alt)), z3.Not(EOK(t))))

    def setup(self, ex):
        for st, args, ctx in super().setup(ex):
            v = Buf(ex, st, args[0])
            P = simp(v.data.off + v.off)
            self.unfold(st, self.t, simp(J - P))
            yield st, args, ctx

    def spec(self, ex, st, args, ctx):
        t = L.fv_term(ex, st, args[1])
        return ELEN(t), lambda k: EBY(t, k), EOK(t)

    def post(self, ex, old, st, args, outcome, ctx):
        res = super().post(ex, old, st, args, outcome, ctx)
        if outcome[0] == 'ret':
            ty = FVR.ty(self.t)
            res.append(('values of unknown type are refused', z3.Implies(z3.And(*[ty != bv(ord(c), 8) for c in ENC_TYPES]), z3.Not(outcome[1]))))
        return res

    def pre(self, ex, st, args):
        t = L.fv_term(ex, st, args[1])
        ex.oblige(st, 'precondition of %s: value holds the alternative of its type' % self.name, WT(t))
        st.assume(bounds_of(t))

    def facts(self, ex, st, args, P, ok):
        t = L.fv_term(ex, st, args[1])
        if z3.is_app(t) and t.decl().name() == 'seq_at':
            for which in 'AF':
                entry_facts(st, t.arg(0), t.arg(1), which)


def entry_facts(st, s, i, which):
    """unfolding of LENP / SBY / EOKS at entry i of sequence s"""
    lenp, sby = (LENPA, SBYA) if which == 'A' else (LENPT, SBYT)
    v = seq_at(s, i)
    n = ELEN(v) if which == 'A' else ELEN(v) + 1 + seq_nlen(s, i)
    st.assume(lenp(s, i + 1) == lenp(s, i) + n)
    st.assume(z3.ULE(ELEN(v), LIM))
    inr = z3.ULT(i, seq_len(s))
    st.assume(z3.Implies(inr, z3.And(z3.ULE(lenp(s, i + 1), lenp(s, seq_len(s))), z3.ULE(lenp(s, i), lenp(s, i + 1)))))
    st.assume(z3.Implies(z3.And(inr, EOKS(s)), z3.And(EOK(v), z3.BoolVal(True) if which == 'A' else z3.ULE(seq_nlen(s, i), bv(255)))))
    for start in [x[2] for x in st.ghost.get('encseq', ()) if x[0] == which]:
        r = J - start
        r0 = r - lenp(s, i)
        if which == 'A':
            b = EBY(v, r0)
        else:
            nl = seq_nlen(s, i)
            b = z3.If(r0 == 0, z3.Extract(7, 0, nl), z3.If(z3.ULE(r0, nl), z3.Select(seq_narr(s, i), r0 - 1), EBY(v, r0 - 1 - nl)))
        st.assume(z3.Implies(z3.And(z3.UGE(J, start), z3.UGE(r, lenp(s, i)), z3.ULT(r, lenp(s, i + 1))), sby(s, r) == b))


class EncSeq(Enc):
    def __init__(self, name, which, safe_only=False):
        self.which = which
        self.title = name + ': length prefix and the representation of every element in order, or failure'
        super().__init__(name, safe_only)

    def value(self, ex, st):
        t = z3.Const('seqvalue!%d' % L.ex_next(ex), SEQ)
        r = ex.region(st, 'sequence', 24)
        ex.aset(st, Ptr(r.id, 0), SeqVal(t))
        self.t = t
        lenp = LENPA if self.which == 'A' else LENPT
        st.assume(WTS(t))
        st.assume(lenp(t, bv(0)) == 0)
        st.assume(z3.ULE(seq_len(t), bv(1 << 31)))
        st.assume(z3.ULE(slen(t, self.which), LIM))
        return Ptr(r.id, 0)

    def setup(self, ex):
        for st, args, ctx in super().setup(ex):
            v = Buf(ex, st, args[0])
            st.ghost['encseq'] = ((self.which, self.t, simp(v.data.off + v.off + 4)),)
            yield st, args, ctx

    def spec(self, ex, st, args, ctx):
        t = L.getseq(ex, st, args[1]).t
        n = slen(t, self.which)
        by = SBYA if self.which == 'A' else SBYT
        return n + 4, lambda k: sel(k, [byte_of(n, 4, i) for i in range(4)], by(t, k - 4)), EOKS(t)

    def pre(self, ex, st, args):
        t = L.getseq(ex, st, args[1]).t
        ex.oblige(st, 'precondition of %s: elements hold the alternatives of their types' % self.name, WTS(t))
        st.assume(z3.ULE(slen(t, self.which), LIM))


def enc_candidates(ex, st, fr, entry, entry_phi, modset, phis):
    from c_codec import buffer_auto
    out = buffer_auto(ex, st, fr, entry, entry_phi, modset, phis)
    bufs = set()
    for rid, o, n in modset:
        if rid in entry.mem:
            reg = ex.regions[rid]
            if (reg.tyname and reg.tyname.endswith('amqpprox::Buffer')) or reg.name.endswith(' object'):
                bufs.add(rid)
    ints = [i.id for i in phis if i.ty.kind == 'int' and i.ty.width in (32, 64)]
    ptrs = [i.id for i in phis if i.ty.kind == 'ptr']

    def idx(f, i):
        v = f.loc[i]
        if isinstance(v, Ptr):
            return z3.UDiv(v.off, bv(elem_size(ex, v.rid)))
        return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    keys = ints + [p for p in ptrs if isinstance(entry_phi[p], Ptr) and entry_phi[p].rid and elem_size(ex, entry_phi[p].rid)]
    a0 = entry.ghost.get('arr0')
    for b in bufs:
        try:
            v0 = Abs(ex, entry, Ptr(b, 0))
        except ToolLimit:
            continue
        ea = v0.a
        ep = v0.p
        out.append(lambda ex2, q, f, b=b, ea=ea, ep=ep: z3.Implies(z3.ULT(J, ep), z3.Select(Abs(ex2, q, Ptr(b, 0)).a, J) == z3.Select(ea, J)))
        out.append(lambda ex2, q, f, b=b, ea=ea: (lambda v: z3.Implies(z3.UGE(J, v.p), z3.Select(v.a, J) == z3.Select(ea, J)))(Abs(ex2, q, Ptr(b, 0))))
        for which, s, start in entry.ghost.get('encseq', ()):
            lenp, sby = (LENPA, SBYA) if which == 'A' else (LENPT, SBYT)
            for i in keys:
                out.append(lambda ex2, q, f, i=i, s=s: z3.ULE(idx(f, i), seq_len(s)))
                out.append(lambda ex2, q, f, i=i, s=s, b=b, start=start, lenp=lenp: Abs(ex2, q, Ptr(b, 0)).p == start + lenp(s, idx(f, i)))
                out.append(lambda ex2, q, f, i=i, s=s, b=b, start=start, lenp=lenp, sby=sby:
                           z3.Implies(z3.And(z3.UGE(J, start), z3.ULT(J, start + lenp(s, idx(f, i)))),
                                      z3.Select(Abs(ex2, q, Ptr(b, 0)).a, J) == sby(s, J - start)))
    for i in ptrs:
        v = entry_phi[i]
        if isinstance(v, Ptr) and v.rid and elem_size(ex, v.rid):
            w = elem_size(ex, v.rid)
            out.append(lambda ex2, q, f, i=i, w=w: z3.URem(f.loc[i].off, bv(w)) == 0)
            out.append(lambda ex2, q, f, i=i, w=w: z3.ULE(f.loc[i].off, bv(w) * bv(1 << 40)))
    return out


def elem_facts(st, s, i):
    v = seq_at(s, i)
    st.assume(z3.Implies(z3.And(WTS(s), z3.ULT(i, seq_len(s))), z3.And(WT(v), wt_def(v), bounds_of(v))))


def elem_size(ex, rid):
    return ex.regions[rid].ghost.get('elemsize') or 0


def encoders(safe_only=False):
    return [EncString('Types::encodeLongString', 4, safe_only), EncString('Types::encodeShortString', 1, safe_only), EncBytes(safe_only),
            EncValue(safe_only), EncSeq('Types::encodeFieldArray', 'A', safe_only), EncSeq('Types::encodeFieldTable', 'F', safe_only)]
