"""Contracts for the wire codec: Buffer, Types, methods::*, Method, Frame."""
import re
import z3
from engine import Outcomes, PathEnd, Ptr, ToolLimit, as_int, bv, simp, NULL, Exc
from contract import Contract
import libmodels as L
from libmodels import PT, I64, I32, I16, I8, StrV, SeqVal, VarV, FvElem, SEQ, FVR

NS = r'Bloomberg::amqpprox::'
LIM = bv(1 << 40)


class Buf:
    """view of a Buffer object {char* d_data; size_t d_length; size_t d_offset}"""

    def __init__(self, ex, st, p):
        if not isinstance(p, Ptr):
            raise ToolLimit('buffer behind %r' % (p,))
        self.p = p
        self.data = ex.load(st, p, PT)
        self.len = ex.load(st, p.add(8), I64)
        self.off = ex.load(st, p.add(16), I64)

    def valid(self, ex):
        """offset <= length, and [data, data+length) lies inside one live object"""
        c = [z3.ULE(self.off, self.len)]
        if isinstance(self.data, Ptr) and self.data.rid:
            sz = ex.regions[self.data.rid].size
            sz = bv(sz) if isinstance(sz, int) else sz
            c += [z3.ULE(self.data.off, sz), z3.ULE(self.len, sz - self.data.off)]
        else:
            c += [self.len == 0]
        return z3.And(*c)


def mkbuf(ex, st, name='buf', ro=False):
    """a Buffer object over exactly `length` symbolic bytes"""
    n = ex.fresh(name + '_length', 64)
    o = ex.fresh(name + '_offset', 64)
    d = ex.region(st, name + ' data', n, arr=True)
    d.ro = ro
    b = ex.region(st, name + ' object', 24)
    st.wr(b.id).cells = {0: (8, Ptr(d.id, 0)), 8: (8, n), 16: (8, o)}
    st.assume(z3.ULE(n, LIM))
    st.assume(z3.ULE(o, n))
    return Ptr(b.id, 0)


OUT_STR, OUT_SEQ, OUT_FV, OUT_VB = 'str', 'seq', 'fv', 'vb'


def make_out(ex, st, kind, known=True):
    """fresh output object of the given kind"""
    if kind == OUT_STR:
        r = ex.region(st, 'outString', 32)
        ex.aset(st, Ptr(r.id, 0), StrV.sym(ex, 'outstr0', st))
    elif kind == OUT_SEQ:
        r = ex.region(st, 'outSeq', 24)
        ex.aset(st, Ptr(r.id, 0), SeqVal(z3.Const('outseq0!%d' % L.ex_next(ex), SEQ)))
    elif kind == OUT_FV:
        r = ex.region(st, 'outValue', 48)
        ex.aset(st, Ptr(r.id, 0), VarV(L.K_BOOL, ex.fresh('outfv0', 1)))
        st.wr(r.id).cells[40] = (1, ex.fresh('outfvty0', 8))
    elif kind == OUT_VB:
        r = ex.region(st, 'outVec', 24)
        for o in (0, 8, 16):
            ex.store(st, Ptr(r.id, o), NULL, PT)
    return Ptr(r.id, 0)


def havoc_out(ex, st, kind, p):
    if kind == OUT_STR:
        L.setstr(ex, st, p, StrV.sym(ex, 'decoded', st))
    elif kind == OUT_SEQ:
        ex.aset(st, p, SeqVal(z3.Const('decodedseq!%d' % L.ex_next(ex), SEQ)))
    elif kind == OUT_FV:
        t = z3.Const('decodedfv!%d' % L.ex_next(ex), FVR)
        ex.aset(st, p, FvElem(t))
        ex.store(st, p.add(40), FVR.ty(t), I8)
    elif kind == OUT_VB:
        L.new_vec(ex, st, p, StrV.sym(ex, 'decodedvb', st))


def pad_args(ex, args):
    """further integer parameters (sizes, nesting depth) are arbitrary"""
    for ty in ex.cur_fn.ptys[len(args):]:
        if ty.kind != 'int':
            raise ToolLimit('unexpected parameter of ' + ex.cur_fn.name)
        args.append(ex.fresh('extra', ty.width))


RECURSIVE = ('Types::decodeFieldValue', 'Types::decodeFieldArray', 'Types::decodeFieldTable')


def nesting(ex, st, callee, args):
    """bounded recursion: the depth passed on never falls, grows with every table or array, and is limited"""
    root = ex.root
    if root is None or root.name not in RECURSIVE or callee.name not in RECURSIVE:
        return
    ra = getattr(ex, 'root_args', None)
    if ra is None or len(ra) < 3 or len(args) < 3:
        return
    own, passed = ra[2], args[2]
    if root.name == 'Types::decodeFieldValue':
        ex.oblige(st, 'nesting depth is handed on to %s' % callee.name, z3.UGE(passed, own))
    else:
        ex.oblige(st, 'nesting depth is limited when recursing', z3.ULE(own, bv(1024)))
        ex.oblige(st, 'nesting depth grows with each table or array', z3.UGT(passed, own))


class Decoder(Contract):
    """safe decoding: reads only inside the buffer; buffer stays valid; offset never moves back"""

    def __init__(self, name, sig, kind, extra=0):
        self.func = NS + name + r'\(' + sig
        self.name = name
        self.title = name + ': reads only received bytes, leaves a valid buffer'
        self.kind = kind
        self.extra = extra
        super().__init__()

    def setup(self, ex):
        from engine import State
        st = State()
        b = mkbuf(ex, st, 'in', ro=True)
        out = make_out(ex, st, self.kind)
        args = [out, b]
        pad_args(ex, args)
        yield st, args, {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] != 'ret':
            return [('no exception escapes', z3.BoolVal(False))]
        o, n = Buf(ex, old, args[1]), Buf(ex, st, args[1])
        same = isinstance(n.data, Ptr) and n.data.rid == o.data.rid
        return [('buffer data pointer unchanged', z3.And(z3.BoolVal(same), n.data.off == o.data.off) if same else z3.BoolVal(False)),
                ('buffer length unchanged', n.len == o.len),
                ('offset stays within the buffer', z3.ULE(n.off, n.len)),
                ('offset never moves backwards', z3.UGE(n.off, o.off))]

    def apply(self, ex, st, args, ins):
        b = Buf(ex, st, args[1])
        ex.oblige(st, 'precondition of %s: valid buffer' % self.name, b.valid(ex))
        if isinstance(args[0], Ptr):
            ex.chk_alive(st, args[0], 'decode output')
        nesting(ex, st, self, args)
        no = ex.fresh('off', 64)
        ex.store(st, args[1].add(16), no, I64)
        st.assume(z3.UGE(no, b.off))
        st.assume(z3.ULE(no, b.len))
        havoc_out(ex, st, self.kind, args[0])
        return ex.fresh('decoded_ok', 1)


def buffer_auto(ex, st, fr, entry, entry_phi, modset, phis):
    """candidate loop invariants: every Buffer object written in the loop stays a valid Buffer,
    same data and length as on entry"""
    out = []
    seen = set()
    for rid, o, n in modset:
        if rid in seen or rid not in entry.mem:
            continue
        seen.add(rid)
        reg = ex.regions[rid]
        rs = entry.mem[rid]
        if (reg.tyname and reg.tyname.endswith('amqpprox::Buffer')) or reg.name.endswith(' object'):
            c = rs.cells
            if all(k in c and c[k][0] == 8 for k in (0, 8, 16)):
                def inv(ex2, s, f, rid=rid):
                    return Buf(ex2, s, Ptr(rid, 0)).valid(ex2)
                out.append(inv)

                def mono(ex2, s, f, rid=rid, e0=c[16][1]):
                    return z3.UGE(Buf(ex2, s, Ptr(rid, 0)).off, e0)
                out.append(mono)

                def samelen(ex2, s, f, rid=rid, e0=c[8][1]):
                    return Buf(ex2, s, Ptr(rid, 0)).len == e0
                out.append(samelen)

                def samedata(ex2, s, f, rid=rid, e0=c[0][1]):
                    d = Buf(ex2, s, Ptr(rid, 0)).data
                    if isinstance(d, Ptr) and isinstance(e0, Ptr) and d.rid == e0.rid:
                        return d.off == e0.off
                    return z3.BoolVal(False)
                out.append(samedata)
    return out


def decoder_contracts():
    return [
        Decoder('Types::decodeLongString', '', OUT_STR),
        Decoder('Types::decodeShortString', '', OUT_STR),
        Decoder('Types::decodeByteVector', '', OUT_VB, extra=1),
        Decoder('Types::decodeFieldValue', '', OUT_FV),
        Decoder('Types::decodeFieldArray', '', OUT_SEQ),
        Decoder('Types::decodeFieldTable', '', OUT_SEQ),
    ]
