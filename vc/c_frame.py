"""Contracts for Frame and Method framing."""
import z3
from engine import NULL, Ptr, State, ToolLimit, as_int, bv, simp
from contract import Contract
from c_codec import NS, LIM, Buf, mkbuf, havoc_out, make_out
import libmodels as L
from libmodels import PT, I64, I32, I16, I8

RT = '_ZTISt13runtime_error'


def be(arr, off, n):
    if isinstance(off, int):
        off = bv(off)
    return z3.Concat(*[z3.Select(arr, off + i) for i in range(n)]) if n > 1 else z3.Select(arr, off)


def objsize(ex, cls):
    v = as_int(ex.observe(State(), 'sizeof_' + cls))
    if v is None:
        raise ToolLimit('sizeof ' + cls)
    return v


def sameptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.rid == b.rid:
            return a.off == b.off
        return z3.BoolVal(False)
    return z3.BoolVal(False)


class FrameDecode(Contract):
    func = NS + r'Frame::decode\('
    title = 'Frame::decode: delimits exactly one frame, or reports incomplete, or refuses'
    name = 'Frame::decode'

    def setup(self, ex):
        st = State()
        n = ex.fresh('bufferLen', 64)
        st.assume(z3.ULE(n, LIM))
        d = ex.region(st, 'received bytes', n, arr=True)
        d.ro = True
        f = ex.region(st, 'frame', objsize(ex, 'Frame'), default='sym')
        e = ex.region(st, 'endOfFrame', 8)
        ex.store(st, Ptr(e.id, 0), Ptr(d.id, 0), PT)
        r = ex.region(st, 'remaining', 8)
        r0 = ex.fresh('remaining0', 64)
        ex.store(st, Ptr(r.id, 0), r0, I64)
        yield st, [Ptr(f.id, 0), Ptr(e.id, 0), Ptr(r.id, 0), Ptr(d.id, 0), n], {'arr': st.mem[d.id].arr, 'n': n, 'r0': r0}

    @staticmethod
    def spec(ex, arr, base, n, M):
        Ln = z3.ZeroExt(32, be(arr, base + 3, 4))
        short = z3.ULT(n, bv(8))
        incomplete = z3.And(z3.Not(short), z3.UGT(Ln + 8, n))
        huge = z3.And(incomplete, z3.UGT(Ln + 8, M))
        badend = z3.And(z3.Not(short), z3.Not(incomplete), z3.Select(arr, base + Ln + 7) != bv(0xCE, 8))
        wait = z3.Or(short, z3.And(incomplete, z3.Not(huge)))
        return Ln, wait, z3.Or(huge, badend)

    def post(self, ex, old, st, args, outcome, ctx):
        M = ex.observe(st, 'frame_max')
        arr, n = ctx['arr'], ctx['n']
        Ln, wait, refuse = self.spec(ex, arr, bv(0), n, M)
        end = ex.load(st, args[1], PT)
        rem = ex.load(st, args[2], I64)
        unchanged = z3.And(sameptr(end, args[3]), rem == ctx['r0'])
        if outcome[0] == 'throw':
            return [('refuses only oversized or badly terminated frames', refuse),
                    ('refusal is a runtime_error', z3.BoolVal(outcome[1].tname == RT)),
                    ('a refused frame is not consumed', unchanged)]
        r = outcome[1]
        f = args[0]
        pl = ex.observe(st, 'frame_payload', [f])
        ok = z3.And(sameptr(end, Ptr(args[3].rid, Ln + 8)), rem == n - 8 - Ln,
                    ex.observe(st, 'frame_type', [f]) == z3.Select(arr, bv(0)),
                    ex.observe(st, 'frame_channel', [f]) == be(arr, 1, 2),
                    ex.observe(st, 'frame_length', [f]) == be(arr, 3, 4),
                    sameptr(pl, Ptr(args[3].rid, bv(7))))
        return [('oversized or badly terminated frames are refused', z3.Not(refuse)),
                ('an incomplete frame is reported as such, and only that', r == z3.Not(wait)),
                ('an incomplete frame is not consumed', z3.Implies(z3.Not(r), unchanged)),
                ('a complete frame is delimited exactly: header fields, payload, end and remaining', z3.Implies(r, ok))]

    def apply(self, ex, st, args, ins):
        """caller side: same three outcomes"""
        frame, pend, prem, buf, n = args
        if not isinstance(buf, Ptr):
            raise ToolLimit('Frame::decode on %r' % (buf,))
        from engine import Outcomes, Exc
        if st.mem[buf.rid].arr is None:
            ex.to_arr(st, buf.rid)
        arr = st.mem[buf.rid].arr
        ex.bounds(st, buf, n, 'read') if buf.rid else ex.oblige(st, 'null range only when empty', n == 0)
        M = ex.observe(st, 'frame_max')
        Ln, wait, refuse = self.spec(ex, arr, buf.off, n, M)
        out = []
        for kind, c in (('wait', wait), ('refuse', refuse), ('ok', z3.And(z3.Not(wait), z3.Not(refuse)))):
            if not ex.feasible(st, c):
                continue
            s = st.fork()
            s.assume(simp(c))
            if kind == 'wait':
                self.set_frame(ex, s, frame, None, None, None, None)
                out.append((s, 'ret', z3.BoolVal(False)))
            elif kind == 'refuse':
                out.append((s, 'throw', Exc(RT, NULL)))
            else:
                self.set_frame(ex, s, frame, z3.Select(arr, buf.off), be(arr, buf.off + 1, 2), be(arr, buf.off + 3, 4), buf.add(7))
                ex.store(s, pend, buf.add(simp(Ln + 8)), PT)
                ex.store(s, prem, simp(n - 8 - Ln), I64)
                out.append((s, 'ret', z3.BoolVal(True)))
        return Outcomes(out)

    def set_frame(self, ex, st, f, ty, ch, ln, pl):
        """write the frame fields through the layout learnt from the observers"""
        lay = frame_layout(ex)
        fields = {'type': (1, ty), 'channel': (2, ch), 'length': (4, ln)}
        for k, (w, v) in fields.items():
            if v is None:
                v = ex.fresh('frame_' + k, 8 * w)
            # big-endian in memory
            bs = [z3.Extract(8 * w - 8 * i - 1, 8 * w - 8 * i - 8, v) for i in range(w)]
            for i, b in enumerate(bs):
                ex.store(st, f.add(lay[k] + i), simp(b), I8)
        if pl is not None:
            ex.store(st, f.add(lay['payload']), pl, PT)
        elif st.writes is not None:
            st.writes.append((f.rid, (as_int(f.off) or 0) + lay['payload'], 8))


def frame_layout(ex):
    l = getattr(ex, '_frame_layout', None)
    if l is None:
        l = {}
        for k in ('type', 'channel', 'length', 'payload'):
            l[k] = learn_offset(ex, 'Frame', 'frame_' + k)
        ex._frame_layout = l
    return l


def learn_offset(ex, cls, obs):
    """byte offset the observer reads at, found by running it on a symbolic object"""
    st = State()
    r = ex.region(st, 'learn', objsize(ex, cls), default='sym')
    s = st.fork()
    s.frames = []
    ex.discover += 1
    try:
        ex.push_frame(s, ex.m.func(obs), [Ptr(r.id, 0)])
        fin = ex.explore([s])
    finally:
        ex.discover -= 1
    offs = sorted(o for s2, _ in fin for o in s2.mem[r.id].cells)
    if not offs:
        raise ToolLimit('layout of ' + cls)
    return offs[0]


class MethodDecode(Contract):
    func = NS + r'Method::decode\('
    title = 'Method::decode: splits class, method and arguments, only when four octets are there'
    name = 'Method::decode'

    def setup(self, ex):
        st = State()
        n = ex.fresh('bufferLen', 64)
        st.assume(z3.ULE(n, LIM))
        d = ex.region(st, 'received bytes', n, arr=True)
        d.ro = True
        m = ex.region(st, 'method', objsize(ex, 'Method'), default='sym')
        yield st, [Ptr(m.id, 0), Ptr(d.id, 0), n], {'arr': st.mem[d.id].arr, 'n': n}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        r, arr, n = outcome[1], ctx['arr'], ctx['n']
        m = args[0]
        ok = z3.And(ex.observe(st, 'method_class', [m]) == be(arr, 0, 2), ex.observe(st, 'method_method', [m]) == be(arr, 2, 2),
                    sameptr(ex.observe(st, 'method_payload', [m]), Ptr(args[1].rid, bv(4))),
                    ex.observe(st, 'method_length', [m]) == n - 4)
        return [('fails exactly when the payload is shorter than four octets', r == z3.UGE(n, bv(4))),
                ('class, method, argument pointer and length are those of the payload', z3.Implies(r, ok))]


METHODS = ['Start', 'StartOk', 'Tune', 'TuneOk', 'Open', 'OpenOk', 'Close']


class MethodArgsDecode(Contract):
    """memory safety of methods::X::decode"""

    def __init__(self, cls):
        self.cls = cls
        self.func = NS + r'methods::%s::decode\(' % cls
        self.name = 'methods::%s::decode' % cls
        self.title = self.name + ': reads only received bytes, leaves a valid buffer'
        super().__init__()

    def setup(self, ex):
        st = State()
        b = mkbuf(ex, st, 'in', ro=True)
        m = ex.region(st, 'm' + self.cls, objsize(ex, self.cls), default='sym')
        yield st, [Ptr(m.id, 0), b], {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        o, n = Buf(ex, old, args[1]), Buf(ex, st, args[1])
        return [('buffer still denotes the received bytes', z3.And(sameptr(o.data, n.data), n.len == o.len)),
                ('offset stays within the buffer', z3.ULE(n.off, n.len)),
                ('offset never moves backwards', z3.UGE(n.off, o.off))]


class FrameEncode(Contract):
    func = NS + r'Frame::encode\('
    title = 'Frame::encode: writes exactly the frame that decodes to the same header and payload'
    name = 'Frame::encode'

    def setup(self, ex):
        st = State()
        ln = ex.fresh('length', 32)
        L64 = z3.ZeroExt(32, ln)
        f = ex.region(st, 'frame', objsize(ex, 'Frame'), default='undef')
        p = ex.region(st, 'payload', L64, arr=True)
        p.ro = True
        ty, ch = ex.fresh('type', 8), ex.fresh('channel', 16)
        FrameDecode().set_frame(ex, st, Ptr(f.id, 0), ty, ch, ln, Ptr(p.id, 0))
        cap = ex.fresh('room', 64)
        st.assume(z3.ULE(cap, LIM))
        M = ex.observe(st, 'frame_max')
        # the caller provides room for the whole frame whenever it is allowed to be sent
        st.assume(z3.Implies(z3.ULE(L64 + 8, M), z3.UGE(cap, L64 + 8)))
        o = ex.region(st, 'output', cap, arr=True)
        w = ex.region(st, 'writtenSize', 8)
        ex.store(st, Ptr(w.id, 0), bv(0), I64)
        yield st, [Ptr(o.id, 0), Ptr(w.id, 0), Ptr(f.id, 0)], {
            'L': L64, 'ln': ln, 'ty': ty, 'ch': ch, 'parr': st.mem[p.id].arr, 'o0': st.mem[o.id].arr, 'M': M}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        r = outcome[1]
        a = st.mem[args[0].rid].arr
        w = ex.load(st, args[1], I64)
        Ln = ctx['L']
        i = z3.BitVec('i!', 64)
        return [('fails exactly when the frame exceeds the maximum size', r == z3.ULE(Ln + 8, ctx['M'])),
                ('header octets', z3.Implies(r, z3.And(z3.Select(a, bv(0)) == ctx['ty'], be(a, 1, 2) == ctx['ch'], be(a, 3, 4) == ctx['ln']))),
                ('payload octets', z3.Implies(z3.And(r, z3.ULT(i, Ln)), z3.Select(a, i + 7) == z3.Select(ctx['parr'], i))),
                ('frame end octet', z3.Implies(r, z3.Select(a, Ln + 7) == bv(0xCE, 8))),
                ('reports exactly the octets written', z3.Implies(r, w == Ln + 8)),
                ('nothing after the frame is touched', z3.Implies(z3.And(r, z3.UGE(i, Ln + 8)), z3.Select(a, i) == z3.Select(ctx['o0'], i)))]
