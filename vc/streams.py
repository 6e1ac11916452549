"""Assumed contracts of output streams and number formatting: a stream is the text written to it so far."""
import re
import z3
from engine import Fn, Outcomes, PathEnd, Ptr, ToolLimit, as_int, bv, simp
import libmodels as L
from libmodels import ARR, StrV, cstr, concat, getstr, setstr

M = L.base.model
BV65 = z3.BitVecSort(65)
DLEN = z3.Function('decimal_len', BV65, z3.BitVecSort(64))
DARR = z3.Function('decimal_arr', BV65, ARR)


class StreamV:
    size = 8
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def havoc(self, ex, st):
        return StreamV(StrV.sym(ex, 'text', st))


def base(ex, st, p):
    """all stream subobjects of one stringstream object share one text"""
    if not isinstance(p, Ptr):
        raise ToolLimit('stream behind %r' % (p,))
    r = ex.regions[p.rid]
    if isinstance(r.size, int) and r.size <= 512:
        return Ptr(p.rid, 0)
    return p


def get(ex, st, p):
    v = ex.aget(st, base(ex, st, p))
    if not isinstance(v, StreamV):
        v = StreamV(StrV.sym(ex, 'text', st))
    return v


def put(ex, st, p, s):
    ex.aset(st, base(ex, st, p), StreamV(concat(get(ex, st, p).s, s)))
    return p


def dec(ex, st, x, signed):
    x = simp(x)
    if z3.is_bool(x):
        x = z3.If(x, bv(1, 8), bv(0, 8))
        signed = False
    if z3.is_bv_value(x):
        return StrV.of(str(x.as_signed_long() if signed else x.as_long()).encode())
    w = x.size()
    e = simp(z3.SignExt(65 - w, x) if signed else z3.ZeroExt(65 - w, x))
    s = StrV(DLEN(e), DARR(e))
    st.assume(z3.And(z3.UGE(s.len, bv(1)), z3.ULE(s.len, bv(20))))
    return s


SS = r'^std::(__cxx11::)?basic_(o|i)?stringstream<char, std::char_traits<char>, std::allocator<char> >::'


@M(SS + r'basic_(o|i)?stringstream\(\)', key='stringstream')
def ss_ctor(ex, st, a, ins):
    ex.aset(st, base(ex, st, a[0]), StreamV(StrV.of(b'')))


@M(SS + r'basic_(o|i)?stringstream\(std::string const&', key='stringstream')
def ss_ctor_s(ex, st, a, ins):
    ex.aset(st, base(ex, st, a[0]), StreamV(getstr(ex, st, a[1])))


M(SS + r'~', key='stringstream')(L.nop())


@M(SS + r'str\(\) const', key='stringstream')
def ss_str(ex, st, a, ins):
    setstr(ex, st, a[0], get(ex, st, a[1]).s)


OS = r'std::basic_ostream<char, std::char_traits<char> >'


@M(r'^' + OS + r'& std::operator<< <std::char_traits<char> >\(' + OS + r'&, char const\*\)', key='ostream <<')
def os_c(ex, st, a, ins):
    return put(ex, st, a[0], cstr(ex, st, a[1]))


@M(r'^' + OS + r'& std::operator<< <std::char_traits<char> >\(' + OS + r'&, char\)', key='ostream <<')
def os_ch(ex, st, a, ins):
    return put(ex, st, a[0], L.char_str(a[1]))


@M(r'^' + OS + r'& std::operator<< <char, std::char_traits<char>, std::allocator<char> >\(' + OS + r'&, std::string const&\)', key='ostream <<')
def os_s(ex, st, a, ins):
    return put(ex, st, a[0], getstr(ex, st, a[1]))


@M(r'^' + OS + r'& std::operator<< <char, std::char_traits<char> >\(' + OS + r'&, std::basic_string_view<', key='ostream <<')
def os_sv(ex, st, a, ins):
    return put(ex, st, a[0], L.region_bytes(ex, st, a[2], a[1]))


@M(r'^(' + OS + r'|std::ostream)::operator<<\((unsigned )?(short|int|long|long long|bool)\)', key='ostream <<')
def os_i(ex, st, a, ins):
    callee = ex.dem(ins.x['callee'][1]) if ins.x['callee'][0] == 'fn' else ''
    t = re.search(r'operator<<\((.*?)\)', callee).group(1)
    w = {'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}.get(t)
    x = a[1]
    if w and not z3.is_bool(x) and x.size() > w:
        x = z3.Extract(w - 1, 0, x)
    return put(ex, st, a[0], dec(ex, st, x, not t.startswith('unsigned') and t != 'bool'))


@M(r'^(' + OS + r'|std::ostream)::operator<<\((std::ostream& \(\*\)\(std::ostream&\)|.*\(\*\).*)\)', key='ostream <<')
def os_m(ex, st, a, ins):
    if isinstance(a[1], Fn) and 'endl' in a[1].name:
        return put(ex, st, a[0], StrV.of(b'\n'))
    return put(ex, st, a[0], StrV.sym(ex, 'manip', st))


@M(r'^(' + OS + r'|std::ostream)::operator<<\(', key='ostream <<')
def os_any(ex, st, a, ins):
    return put(ex, st, a[0], StrV.sym(ex, 'formatted', st))


@M(r'^std::(__cxx11::)?to_string\(', key='std::to_string')
def to_string(ex, st, a, ins):
    t = re.search(r'to_string\((.*?)\)', ex.dem(ins.x['callee'][1])).group(1)
    setstr(ex, st, a[0], dec(ex, st, a[1], not t.startswith('unsigned')))
