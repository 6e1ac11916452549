"""Contracts of the handshake methods: arguments are laid out exactly as AMQP 0-9-1 prescribes, both ways."""
import z3
from engine import NULL, Ptr, State, ToolLimit, as_int, bv, simp
from contract import Contract
from c_codec import Buf, LIM, NS, mkbuf
from c_frame import be, objsize, sameptr
from c_wire import Abs, OKT, PRET, CAN, can_inst
from c_enc import Enc, EOKS, J, LENPT, SBYT, WTS, byte_of, sel, slen
import libmodels as L
from libmodels import SEQ, SeqVal, StrV, seq_nil, seq_len

CONNECTION = 10
# ('u', octets, observer) | ('ss'|'ls'|'tab', observer) | ('k', octets, constant)
LAYOUT = {
    'Start': (10, [('u', 1, 'start_major'), ('u', 1, 'start_minor'), ('tab', 'start_properties'), ('ls', 'start_mechanisms'),
                   ('ls', 'start_locales')]),
    'StartOk': (11, [('tab', 'startok_properties'), ('ss', 'startok_mechanism'), ('ls', 'startok_response'), ('ss', 'startok_locale')]),
    'Tune': (30, [('u', 2, 'tune_channelmax'), ('u', 4, 'tune_framemax'), ('u', 2, 'tune_heartbeat')]),
    'TuneOk': (31, [('u', 2, 'tuneok_channelmax'), ('u', 4, 'tuneok_framemax'), ('u', 2, 'tuneok_heartbeat')]),
    'Open': (40, [('ss', 'open_vhost'), ('k', 1, 0), ('k', 1, 0)]),
    'OpenOk': (41, [('k', 1, 0)]),
    'Close': (50, [('u', 2, 'close_code'), ('ss', 'close_text'), ('u', 2, 'close_classid'), ('u', 2, 'close_methodid')]),
    'CloseOk': (51, []),
}


def make_object(ex, st, cls, fresh=True):
    m = ex.region(st, cls + ' message', max(objsize(ex, cls), 1), default='sym')
    p = Ptr(m.id, 0)
    ctx = {}
    for s in LAYOUT[cls][1]:
        if s[0] in ('ss', 'ls'):
            f = ex.observe(st, s[1], [p])
            L.setstr(ex, st, f, StrV.sym(ex, s[1], st))
        elif s[0] == 'tab':
            f = ex.observe(st, s[1], [p])
            t = z3.Const('%s!%d' % (s[1], L.ex_next(ex)), SEQ) if fresh else seq_nil
            ex.aset(st, f, SeqVal(t))
            st.assume(WTS(t))
            st.assume(z3.ULE(seq_len(t), bv(1 << 31)))
            st.assume(z3.ULE(slen(t, 'F'), LIM))
    return p


class MethodEncode(Enc):
    """Method::encode<T>: class id, method id, arguments"""

    def __init__(self, cls):
        self.cls = cls
        Enc.__init__(self, 'x')
        self.name = 'methods::%s encoding' % cls
        self.func = r'^encode_%s$' % cls
        self.title = 'Method::encode<%s>: class, method and arguments exactly as prescribed, or failure' % cls
        Contract.__init__(self)

    def value(self, ex, st):
        return make_object(ex, st, self.cls)

    def spec(self, ex, st, args, ctx):
        mid, segs = LAYOUT[self.cls]
        pos = bv(0)
        parts = []
        ok = []
        todo = [('k', 2, CONNECTION), ('k', 2, mid)] + segs
        for s in todo:
            if s[0] == 'k':
                v = bv(s[2])
                parts.append((pos, bv(s[1]), lambda k, v=v, w=s[1]: sel(k, [byte_of(v, w, i) for i in range(w - 1)], byte_of(v, w, w - 1))))
                n = bv(s[1])
            elif s[0] == 'u':
                v = ex.observe(st, s[2], [args[1]])
                v = z3.ZeroExt(64 - v.size(), v)
                parts.append((pos, bv(s[1]), lambda k, v=v, w=s[1]: sel(k, [byte_of(v, w, i) for i in range(w - 1)], byte_of(v, w, w - 1))))
                n = bv(s[1])
            elif s[0] in ('ss', 'ls'):
                x = L.getstr(ex, st, ex.observe(st, s[1], [args[1]]))
                w = 1 if s[0] == 'ss' else 4
                n = x.len + w
                if w == 1:
                    ok.append(z3.ULE(x.len, bv(255)))
                parts.append((pos, n, lambda k, x=x, w=w: sel(k, [byte_of(x.len, w, i) for i in range(w)], z3.Select(x.arr, k - w))))
            else:
                t = L.getseq(ex, st, ex.observe(st, s[1], [args[1]])).t
                sl = slen(t, 'F')
                n = sl + 4
                ok.append(EOKS(t))
                parts.append((pos, n, lambda k, t=t, sl=sl: sel(k, [byte_of(sl, 4, i) for i in range(4)], SBYT(t, k - 4))))
            pos = simp(pos + n)

        def by(k):
            e = bv(0, 8)
            for p, n, f in reversed(parts):
                e = z3.If(z3.And(z3.UGE(k, p), z3.ULT(k, p + n)), f(k - p), e)
            return e
        return pos, by, z3.And(*ok) if ok else z3.BoolVal(True)


class MethodArgs(Contract):
    """methods::X::decode yields exactly the arguments represented"""

    def __init__(self, cls):
        self.cls = cls
        self.func = NS + r'methods::%s::decode\(' % cls
        self.name = 'methods::%s::decode' % cls
        self.title = self.name + ': yields exactly the arguments represented, or fails when they are not all there'
        super().__init__()

    def setup(self, ex):
        st = State()
        b = mkbuf(ex, st, 'in', ro=True)
        m = make_object(ex, st, self.cls, fresh=False)
        yield st, [m, b], {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        v, w = Abs(ex, old, args[1]), Abs(ex, st, args[1])
        r = outcome[1]
        i = ex.fresh('i', 64)
        can_inst(st, i)
        p = v.p
        need, want, res = [], [], []
        for s in LAYOUT[self.cls][1]:
            room = v.e - p
            if s[0] == 'k':
                want.append(z3.And(z3.UGE(room, bv(s[1])), be(v.a, p, s[1]) == s[2]))
                p = simp(p + s[1])
            elif s[0] == 'u':
                need.append(z3.UGE(room, bv(s[1])))
                res.append((s[2], ex.observe(st, s[2], [args[0]]) == be(v.a, p, s[1])))
                p = simp(p + s[1])
            elif s[0] in ('ss', 'ls'):
                k = 1 if s[0] == 'ss' else 4
                n = z3.ZeroExt(64 - 8 * k, be(v.a, p, k))
                need.append(z3.And(z3.UGE(room, bv(k)), z3.ULE(n, room - k)))
                x = L.getstr(ex, st, ex.observe(st, s[1], [args[0]]))
                res.append((s[1] + ' length', x.len == n))
                res.append((s[1] + ' octets', z3.Implies(z3.ULT(i, n), x.at(i) == z3.Select(v.a, p + k + i))))
                p = simp(p + k + n)
            else:
                n = z3.ZeroExt(32, be(v.a, p, 4))
                need.append(z3.And(z3.UGE(room, bv(4)), z3.ULE(n, room - 4), OKT(bv(0), v.a, p + 4, p + 4 + n)))
                t = L.getseq(ex, st, ex.observe(st, s[1], [args[0]])).t
                res.append((s[1], t == PRET(seq_nil, v.a, p + 4, p + 4 + n)))
                p = simp(p + 4 + n)
        need = z3.And(*need) if need else z3.BoolVal(True)
        full = z3.And(need, *want)
        return [('accepted only when the arguments are there and well formed', z3.Implies(r, need)),
                ('well formed arguments are accepted', z3.Implies(full, r))] + \
            [('argument as represented: ' + l, z3.Implies(r, c)) for l, c in res]


def method_contracts():
    return [MethodArgs(c) for c in LAYOUT if c != 'CloseOk'] + [MethodEncode(c) for c in LAYOUT]
