"""Contracts of packet processing: pass-through and delivery of handshake frames."""
import z3
from engine import NULL, Exc, Outcomes, PathEnd, Ptr, State, ToolLimit, as_int, bv, simp, is_null
from contract import Contract
from c_codec import Buf, LIM, NS
from c_frame import FrameDecode, MethodDecode, be, learn_offset, objsize, sameptr, RT
import libmodels as L
from libmodels import PT, I64, I32, I16, I8
from z3 import BitVecSort, BoolSort

W = BitVecSort(64)
CH = z3.Function('chain', W, BoolSort())          # received data [0,p) is a sequence of complete frames
CNT = z3.Function('frames', W, W)                 # ... this many
ND = z3.Function('none_due', W, W, BoolSort())    # no frame starting in [a,b) is due to the connector
CLOSE_EXC = '_ZTIN9Bloomberg8amqpprox10CloseErrorE'


def due(arr, p):
    """the frame at p is a connection method frame"""
    Ln = be(arr, p + 3, 4)
    return z3.And(z3.Select(arr, p) == 1, z3.UGE(Ln, bv(4, 32)), be(arr, p + 7, 2) == 10)


def bufview(ex, st, obs, obj):
    return Buf(ex, st, ex.observe(st, obs, [obj]))


class Env:
    """SessionState and Connector objects as process() sees them"""

    def __init__(self, ex, st):
        self.state = ex.region(st, 'sessionstate', objsize(ex, 'SessionState'), default='sym')
        self.conn = ex.region(st, 'connector', objsize(ex, 'Connector'), default='sym')
        self.out = ex.region(st, 'reply', ex.fresh('replysize', 64), arr=True)
        self.o_state = learn_offset(ex, 'Connector', 'connector_state')
        self.o_side = learn_offset(ex, 'Connector', 'connector_side')
        self.o_out = learn_offset(ex, 'Connector', 'connector_out')
        st.assume(z3.ULE(self.out.size, bv(1 << 33)))
        self.set(ex, st)

    def set(self, ex, st):
        """arbitrary connector state with a valid out buffer"""
        c = Ptr(self.conn.id, 0)
        s = ex.fresh('cstate', 32)
        ex.store(st, c.add(self.o_state), s, I32)
        ex.store(st, c.add(self.o_side), z3.If(ex.fresh('side', 1), bv(1, 8), bv(0, 8)), I8)
        n = ex.fresh('outlen', 64)
        st.assume(z3.ULE(n, self.out.size))
        ex.store(st, c.add(self.o_out), Ptr(self.out.id, 0), PT)
        ex.store(st, c.add(self.o_out + 8), n, I64)
        ex.store(st, c.add(self.o_out + 16), bv(0), I64)
        return s


class FrameDecodeChain(FrameDecode):
    """Frame::decode at a call in process(): also unfolds the chain of frames"""
    verify = False

    def apply(self, ex, st, args, ins):
        buf = args[3]
        ghost = st.ghost.get('proc')
        res = FrameDecode.apply(self, ex, st, args, ins)
        if ghost is None:
            return res
        arr, rid = ghost['arr'], ghost['rid']
        if not isinstance(buf, Ptr) or buf.rid != rid:
            raise ToolLimit('frame decoded from elsewhere')
        p = buf.off
        for s, kind, v in res.items:
            if kind == 'ret' and z3.is_true(v):
                nx = simp(p + 8 + z3.ZeroExt(32, be(arr, p + 3, 4)))
                s.assume(z3.Implies(CH(p), z3.And(CH(nx), CNT(nx) == CNT(p) + 1)))
                D = ex.load(s, Ptr(ghost['g'], 0), I64)
                s.assume(z3.Implies(z3.And(CH(p), ND(D, p), z3.Not(due(arr, p))), ND(D, nx)))
                s.assume(z3.Implies(CH(p), z3.ULE(CNT(p) * 8, p)))
            elif kind == 'throw':
                s.ghost = dict(s.ghost)
                s.ghost['refused'] = p
        return res


class Receive(Contract):
    """Connector::receive(method, direction), as process() relies on it"""
    verify = False
    name = 'Connector::receive'
    func = NS + r'Connector::receive\(Bloomberg::amqpprox::Method const&, Bloomberg::amqpprox::FlowType\)'
    title = 'Connector::receive: any reply and any state, or an exception'

    def apply(self, ex, st, args, ins):
        g = st.ghost.get('proc')
        if g is None:
            raise ToolLimit('receive outside process')
        m = args[1]
        arr, rid = g['arr'], g['rid']
        pay = ex.observe(st, 'method_payload', [m])
        if not isinstance(pay, Ptr) or pay.rid != rid:
            ex.oblige(st, 'the method handed on is one that was received', False)
            raise PathEnd()
        p = simp(pay.off - 11)
        D = ex.load(st, Ptr(g['g'], 0), I64)
        Ln = z3.ZeroExt(32, be(arr, p + 3, 4))
        ex.oblige(st, 'only connection methods in complete received frames are interpreted',
                  z3.And(z3.UGE(pay.off, bv(11)), CH(p), due(arr, p), z3.ULE(p + 8 + Ln, g['R'])))
        ex.oblige(st, 'every connection method is interpreted, once, in order', z3.And(z3.UGE(p, D), ND(D, p)))
        ex.oblige(st, 'class, method and arguments are those received',
                  z3.And(ex.observe(st, 'method_class', [m]) == 10, ex.observe(st, 'method_method', [m]) == be(arr, p + 9, 2),
                         ex.observe(st, 'method_length', [m]) == Ln - 4))
        ex.oblige(st, 'direction is handed on', args[2] == g['dir'])
        cs = ex.observe(st, 'connector_state', [Ptr(g['env'].conn.id, 0)])
        ex.oblige(st, 'nothing is interpreted once the connection is open', cs != ex.observe(st, 'state_open'))
        nx = simp(p + 8 + Ln)
        ex.store(st, Ptr(g['g'], 0), nx, I64)
        st.assume(ND(nx, nx))
        g['env'].set(ex, st)
        out = [(st, 'ret', None)]
        for t in (RT, CLOSE_EXC):
            f = st.fork()
            f.ghost = dict(f.ghost)
            f.ghost['refused'] = 'connector'
            out.append((f, 'throw', Exc(t, NULL)))
        return Outcomes(out)


class ReceiveHeader(Contract):
    verify = False
    name = 'Connector::receive header'
    func = NS + r'Connector::receive\(Bloomberg::amqpprox::Buffer const&\)'
    title = 'Connector::receive(header): any reply and any state'

    def apply(self, ex, st, args, ins):
        g = st.ghost.get('proc')
        if g is None:
            raise ToolLimit('receive outside process')
        b = Buf(ex, st, args[1])
        hl = ex.observe(st, 'header_length')
        ex.oblige(st, 'the whole of the received data is presented as protocol header',
                  z3.And(sameptr(b.data, Ptr(g['rid'], bv(0))), b.len == g['R'], b.off == 0, z3.UGE(b.len, hl)))
        cs = ex.observe(st, 'connector_state', [Ptr(g['env'].conn.id, 0)])
        ex.oblige(st, 'header presented only while one is awaited', cs == ex.observe(st, 'state_awaiting_header'))
        ex.store(st, Ptr(g['g'], 8), ex.load(st, Ptr(g['g'], 8), I64) + 1, I64)
        g['env'].set(ex, st)
        return None


class Process(Contract):
    func = NS + r'PacketProcessor::process\('
    name = 'PacketProcessor::process'
    title = 'PacketProcessor::process: complete frames are passed through unchanged when open, handshake methods handed on otherwise'

    def setup(self, ex):
        st = State()
        env = Env(ex, st)
        n, R = ex.fresh('buffersize', 64), ex.fresh('received', 64)
        st.assume(z3.ULE(n, bv(1 << 33)))
        st.assume(z3.ULE(R, n))
        d = ex.region(st, 'read data', n, arr=True)
        d.ro = True
        b = ex.region(st, 'read buffer', 24)
        st.wr(b.id).cells = {0: (8, Ptr(d.id, 0)), 8: (8, n), 16: (8, R)}
        pp = ex.region(st, 'processor', objsize(ex, 'PacketProcessor'))
        g = ex.region(st, 'ghost', 16)
        for o in (0, 8):
            ex.store(st, Ptr(g.id, o), bv(0), I64)
        fin = []
        s0 = st.fork()
        fin = ex.run_function(s0, 'make_processor', [Ptr(pp.id, 0), Ptr(env.state.id, 0), Ptr(env.conn.id, 0)])
        if len(fin) != 1:
            raise ToolLimit('processor construction')
        st = fin[0][0]
        st.frames = []
        dirv = ex.fresh('direction', 32)
        st.assume(z3.Or(dirv == ex.observe(st, 'flow_ingress'), dirv == ex.observe(st, 'flow_egress')))
        arr = st.mem[d.id].arr
        st.assume(CH(bv(0)))
        st.assume(CNT(bv(0)) == 0)
        st.assume(ND(bv(0), bv(0)))
        st.ghost['proc'] = {'arr': arr, 'rid': d.id, 'R': R, 'env': env, 'g': g.id, 'dir': dirv}
        cs = ex.observe(st, 'connector_state', [Ptr(env.conn.id, 0)])
        tot = {k: ex.observe(st, k, [Ptr(env.state.id, 0)]) for k in
               ('in_packets', 'in_frames', 'in_bytes', 'eg_packets', 'eg_frames', 'eg_bytes')}
        ch = ex.observe(st, 'state_awaiting_header')
        for waiting in (True, False):
            s = st.fork()
            s.assume((cs == ch) if waiting else (cs != ch))
            yield s, [Ptr(pp.id, 0), dirv, Ptr(b.id, 0)], {'env': env, 'R': R, 'arr': arr, 'rid': d.id, 'g': g.id, 'dir': dirv, 'cs': cs,
                                                          'waiting': waiting, 'tot': tot}

    def post(self, ex, old, st, args, outcome, c):
        env, R, arr = c['env'], c['R'], c['arr']
        if outcome[0] == 'throw':
            p = st.ghost.get('refused')
            if p is None:
                return [('no exception of its own', z3.BoolVal(False))]
            if isinstance(p, str):
                return []
            return [('refuses only a malformed frame after complete ones', z3.And(CH(p), z3.Not(z3.BoolVal(c['waiting']))))]
        me = args[0]
        rem, ing, egr = (bufview(ex, st, o, me) for o in ('pp_remaining', 'pp_ingress', 'pp_egress'))
        cs1 = ex.observe(st, 'connector_state', [Ptr(env.conn.id, 0)])
        side = ex.observe(st, 'connector_side', [Ptr(env.conn.id, 0)])
        out = bufview(ex, st, 'connector_out', Ptr(env.conn.id, 0))
        OPEN = ex.observe(st, 'state_open')
        ingress = c['dir'] == ex.observe(st, 'flow_ingress')
        tot1 = {k: ex.observe(st, k, [Ptr(env.state.id, 0)]) for k in c['tot']}
        D = ex.load(st, Ptr(c['g'], 0), I64)
        heads = ex.load(st, Ptr(c['g'], 8), I64)
        nothing_counted = z3.And(*[tot1[k] == c['tot'][k] for k in c['tot']])
        o = []

        def same(b, w):
            """b denotes the same bytes as w"""
            return z3.Or(z3.And(b.len == 0, w.len == 0),
                         z3.And(sameptr(b.data, w.data), b.off == 0, b.len == w.len))
        reply = z3.And(z3.Implies(side, z3.And(same(ing, out), egr.len == 0)), z3.Implies(z3.Not(side), z3.And(same(egr, out), ing.len == 0)))
        rem_at = rem.data.off if isinstance(rem.data, Ptr) and rem.data.rid == c['rid'] else None
        if c['waiting']:
            hl = ex.observe(st, 'header_length')
            short = z3.ULT(R, hl)
            wait = z3.And(z3.BoolVal(rem_at is not None), rem_at == 0, rem.off == 0, rem.len == R) if rem_at is not None else z3.BoolVal(False)
            o += [('an incomplete protocol header is kept for later', z3.Implies(short, z3.And(heads == 0, ing.len == 0, egr.len == 0,
                                                                                      z3.Or(wait, z3.And(R == 0, rem.len == 0))))),
                  ('a complete protocol header is presented once and consumed', z3.Implies(z3.Not(short), z3.And(heads == 1, rem.len == 0))),
                  ('the reply to the protocol header is sent, on its side only', z3.Implies(z3.Not(short), reply)),
                  ('handshake data is not counted as passed through', nothing_counted)]
            return o
        o.append(('no protocol header is presented twice', heads == 0))
        if rem_at is None:
            return o + [('what is kept is the end of the received data', z3.And(rem.len == 0, CH(R)))]
        used = simp(R - rem.len)
        nshort = z3.ULT(rem.len, bv(8))
        M = ex.observe(st, 'frame_max')
        Ln, wait, refuse = FrameDecode.spec(ex, arr, used, rem.len, M)
        o += [('what is kept is exactly the unconsumed end of the received data', z3.And(rem.off == 0, z3.ULE(rem.len, R), rem_at == used)),
              ('what is consumed is a sequence of complete frames', CH(used)),
              ('only an incomplete frame is kept', wait),
              ('every connection method before opening was interpreted', z3.Or(cs1 == OPEN, ND(D, used)))]
        for nm, isin, to, other, pk, fr, by, k3 in (('client', ingress, egr, ing, 'in_packets', 'in_frames', 'in_bytes', ('eg_packets', 'eg_frames', 'eg_bytes')),
                                                    ('broker', z3.Not(ingress), ing, egr, 'eg_packets', 'eg_frames', 'eg_bytes',
                                                     ('in_packets', 'in_frames', 'in_bytes'))):
            cond = z3.And(cs1 == OPEN, isin)
            ptr = z3.Or(used == 0, sameptr(to.data, Ptr(c['rid'], bv(0))))
            o += [('open: all complete frames from the %s are passed on unchanged to the other side' % nm,
                   z3.Implies(cond, z3.And(to.len == used, to.off == 0, ptr))),
                  ('open: nothing is sent back to the %s' % nm, z3.Implies(cond, other.len == 0)),
                  ('open: octets and frames from the %s are counted' % nm,
                   z3.Implies(cond, z3.And(tot1[by] == c['tot'][by] + used, tot1[fr] == c['tot'][fr] + CNT(used),
                                           *[tot1[k] == c['tot'][k] for k in k3])))]
        o += [('not open: nothing received is passed on, at most a reply of the proxy is sent, on its side only',
               z3.Implies(cs1 != OPEN, z3.Or(z3.And(ing.len == 0, egr.len == 0, D == 0), z3.And(reply, D != 0)))),
              ('not open: nothing is counted as passed through', z3.Implies(cs1 != OPEN, nothing_counted))]
        return o


def proc_candidates(ex, st, fr, entry, entry_phi, modset, phis):
    g = entry.ghost.get('proc')
    if g is None:
        return []
    R = g['R']
    out = []
    ptrs, ints = [], []
    for i in phis:
        if i.ty.kind == 'ptr':
            ptrs.append(lambda s, f, i=i: f.loc[i.id])
        elif i.ty.kind == 'int' and i.ty.width in (32, 64):
            ints.append((i.ty.width, lambda s, f, i=i: f.loc[i.id]))
    for rid, o, n in sorted(modset, key=str):
        if rid not in entry.mem or not isinstance(n, int) or o is None:
            continue
        c = entry.mem[rid].cells.get(o)
        if c is None or c[0] != n:
            continue

        def get(s, f, rid=rid, o=o):
            return s.mem[rid].cells[o][1]
        if isinstance(c[1], Ptr):
            ptrs.append(get)
        elif z3.is_bv(c[1]) and n in (4, 8) and rid != g['env'].conn.id:
            ints.append((8 * n, get))

    def D(ex2, s):
        return s.mem[g['g']].cells[0][1]

    def isdata(v):
        return isinstance(v, Ptr) and v.rid == g['rid']
    F = z3.BoolVal(False)
    for p in ptrs:
        def on(fun, p=p):
            def c(ex2, s, f):
                v = p(s, f)
                return fun(ex2, s, f, v.off) if isdata(v) else F
            out.append(c)
        on(lambda ex2, s, f, o: z3.And(CH(o), z3.ULE(o, R)))
        on(lambda ex2, s, f, o: z3.Or(ex2.observe(s, 'connector_state', [Ptr(g['env'].conn.id, 0)]) == ex2.observe(s, 'state_open'), ND(D(ex2, s), o)))
        on(lambda ex2, s, f, o: z3.ULE(D(ex2, s), o))
        for w, q in ints:
            if w == 64:
                on(lambda ex2, s, f, o, q=q: q(s, f) == R - o)
                on(lambda ex2, s, f, o, q=q: q(s, f) == o)
                on(lambda ex2, s, f, o, q=q: q(s, f) == CNT(o))
            else:
                on(lambda ex2, s, f, o, q=q: z3.SignExt(32, q(s, f)) == CNT(o))
        on(lambda ex2, s, f, o: z3.ULE(CNT(o) * 8, o))
        on(lambda ex2, s, f, o: z3.ULE(CNT(o), bv(1 << 30)))
    for w, q in ints:
        if w == 64:
            out.append(lambda ex2, s, f, q=q: CH(q(s, f)))
    # what has been set up for sending is what the connector last replied
    pp = fr.loc.get('a0')
    if isinstance(pp, Ptr):
        def replies(ex2, s, f, which):
            env = g['env']
            side = ex2.observe(s, 'connector_side', [Ptr(env.conn.id, 0)])
            outb = bufview(ex2, s, 'connector_out', Ptr(env.conn.id, 0))
            ing, egr = bufview(ex2, s, 'pp_ingress', pp), bufview(ex2, s, 'pp_egress', pp)

            def same(b, w):
                return z3.Or(z3.And(b.len == 0, w.len == 0), z3.And(sameptr(b.data, w.data), b.off == 0, b.len == w.len))
            rep = z3.And(z3.Implies(side, z3.And(same(ing, outb), egr.len == 0)), z3.Implies(z3.Not(side), z3.And(same(egr, outb), ing.len == 0)))
            return z3.If(D(ex2, s) == 0, z3.And(ing.len == 0, egr.len == 0), rep)
        out.append(lambda ex2, s, f: replies(ex2, s, f, 0))
    return out


def proc_contracts():
    return [Process(), FrameDecodeChain(), Receive(), ReceiveHeader()]
