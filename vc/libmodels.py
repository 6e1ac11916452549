"""Assumed contracts for the C++ runtime, libstdc++ and Boost (the trusted base).

Each entry: regex over the normalised demangled name -> model.  A model
describes the library function by its effect on abstract values.  Small
header-only accessors that have no entry here are executed from their real IR."""
import re
import z3
from engine import (ARR, BV64, FP, INLINE, NULL, Agg, Exc, Fn, Outcomes, PathEnd, Ptr, Raw, ToolLimit, as_int, bv,
                    is_null, simp)

ZARR = z3.K(BV64, bv(0, 8))


# ------------------------------------------------------------------ abstract values
class StrV:
    """byte sequence (std::string, vector<uint8_t> snapshot): length and contents.
    contents beyond length are zero (canonical), so equality is plain equality."""
    size = 32
    __slots__ = ('len', 'arr', 'lit', 'parts')

    def __init__(self, n, arr, lit=None, parts=None):
        self.len = n if not isinstance(n, int) else bv(n)
        self.arr = arr
        self.lit = lit
        self.parts = parts          # concatenation normal form: StrV without parts, no two literals in a row

    @staticmethod
    def of(b):
        if isinstance(b, str):
            b = b.encode()
        a = ZARR
        for i, c in enumerate(b):
            if c:
                a = z3.Store(a, bv(i), bv(c, 8))
        return StrV(len(b), a, bytes(b))

    @staticmethod
    def sym(ex, name='str', st=None):
        n = ex.fresh(name + '_len', 64)
        a = ex.fresh(name + '_arr', 'arr')
        if st is not None:
            st.assume(z3.ULE(n, bv(1 << 40)))
        return StrV(n, a)

    @staticmethod
    def named(name, st):
        n = z3.BitVec(name + '_len', 64)
        a = z3.Const(name + '_arr', ARR)
        st.assume(z3.ULE(n, bv(1 << 40)))
        return StrV(n, a)

    def eq(self, o):
        if self.lit is not None and o.lit is not None:
            return z3.BoolVal(self.lit == o.lit)
        if self.parts or o.parts:
            x, y = strip_common(list(self.parts or (self,)), list(o.parts or (o,)))
            if not x and not y:
                return z3.BoolVal(True)
            if len(x) == 1 and len(y) == 1:
                return x[0].eq(y[0])
            if not y and all(e.lit is not None for e in x) or not x and all(e.lit is not None for e in y):
                return z3.BoolVal(False)
        return z3.And(self.len == o.len, self.arr == o.arr)

    def at(self, i):
        return z3.Select(self.arr, i)

    def havoc(self, ex, st):
        return StrV.sym(ex, 'hvstr', st)


def canon(arr, off, n):
    """contents [off, off+n) of arr as canonical array"""
    k = z3.BitVec('k!cn', 64)
    return z3.Lambda([k], z3.If(z3.ULT(k, n), z3.Select(arr, k + off), bv(0, 8)))


def region_bytes(ex, st, p, n):
    """StrV for n bytes at p"""
    ni = n if isinstance(n, int) else as_int(n)
    if ni == 0:
        return StrV.of(b'')
    if not isinstance(p, Ptr):
        raise ToolLimit('byte range behind %r' % (p,))
    ex.chk_alive(st, p, 'read of byte range')
    src = ex.regions[p.rid].ghost.get('strv')
    if src is not None and as_int(p.off) == 0 and z3.is_true(simp(src.len == (bv(n) if isinstance(n, int) else n))):
        return src
    if ni is None and p.rid == 0:
        ex.oblige(st, 'null range only when empty', n == 0)
        return StrV.of(b'')
    ex.bounds(st, p, n, 'read')
    if ni is not None and ni <= 256:
        bs = ex.load_bytes(st, p, ni)
        if all(z3.is_bv_value(b) for b in bs):
            return StrV.of(bytes(b.as_long() for b in bs))
        a = ZARR
        for i, b in enumerate(bs):
            a = z3.Store(a, bv(i), b)
        return StrV(ni, a)
    if st.mem[p.rid].arr is None:
        ex.to_arr(st, p.rid)
    nn = n if not isinstance(n, int) else bv(n)
    return StrV(nn, canon(st.mem[p.rid].arr, p.off, nn))


def char_str(c):
    c = simp(c)
    if z3.is_bv_value(c):
        return StrV.of(bytes([c.as_long()]))
    return StrV(1, z3.Store(ZARR, bv(0), c))


def cstr(ex, st, p):
    """StrV of NUL-terminated string at p"""
    if not isinstance(p, Ptr):
        raise ToolLimit('C string behind %r' % (p,))
    g = ex.regions.get(p.rid) if p.rid else None
    if p.rid == 0:
        ex.oblige(st, 'no null C string', False)
        raise PathEnd()
    o = as_int(p.off)
    if g.ghost.get('strv') is not None and o == 0:
        return g.ghost['strv']
    if o is None:
        raise ToolLimit('C string at symbolic offset')
    out = []
    rs = st.mem[p.rid]
    if rs.arr is None:
        while True:
            c = rs.cells.get(o)
            if c is None or c[0] != 1 or not z3.is_bv_value(c[1]):
                if c is None and isinstance(g.size, int) and o < g.size:
                    b = ex.cell_byte(st, p.rid, o)
                    rs = st.mem[p.rid]
                    if z3.is_bv_value(b):
                        if b.as_long() == 0:
                            break
                        out.append(b.as_long())
                        o += 1
                        continue
                raise ToolLimit('symbolic C string in %s' % g.name)
            b = c[1].as_long()
            if b == 0:
                break
            out.append(b)
            o += 1
        return StrV.of(bytes(out))
    raise ToolLimit('symbolic C string')


def str_region(ex, st, s):
    """read-only byte region holding s and a terminating NUL"""
    r = ex.region(st, 'chars', simp(s.len + 1), arr=s.arr, kind='string data')
    r.ro = True
    r.ghost['strv'] = s
    return Ptr(r.id, 0)


def getstr(ex, st, p):
    v = ex.aget(st, p, default=lambda e, s, q: lazy_str(e, s, q))
    if v is None:
        raise ToolLimit('no string object at %r (%s)' % (p, ex.where(st)))
    if not isinstance(v, StrV):
        raise ToolLimit('object %s used as string' % type(v).__name__)
    return v


def lazy_str(ex, st, p):
    r = ex.regions[p.rid]
    if r.default == 'zero':
        return StrV.of(b'')
    if r.ghost.get('scratch'):
        return StrV.sym(ex, 'elem', st)
    if r.default == 'sym':
        o = as_int(p.off)
        return StrV.named('%s.%d@%d_s' % (r.name, p.rid, o), st)
    return None


def setstr(ex, st, p, v):
    ex.aset(st, p, v)


def same_part(a, b):
    if a is b:
        return True
    if a.lit is not None or b.lit is not None:
        return a.lit is not None and a.lit == b.lit
    return a.len.eq(b.len) and a.arr.eq(b.arr)


def strip_common(x, y):
    for end in (0, -1):
        while x and y:
            a, b = x[end], y[end]
            if same_part(a, b):
                x.pop(end)
                y.pop(end)
                continue
            if a.lit is not None and b.lit is not None and a.lit and b.lit:
                n = min(len(a.lit), len(b.lit))
                la, lb = (a.lit[:n], b.lit[:n]) if end == 0 else (a.lit[-n:], b.lit[-n:])
                if la == lb:
                    for l, v in ((x, a), (y, b)):
                        r = v.lit[n:] if end == 0 else v.lit[:len(v.lit) - n]
                        l.pop(end)
                        if r:
                            l.insert(0 if end == 0 else len(l), StrV.of(r))
                    continue
            break
    return x, y


def concat(a, b):
    if a.lit is not None and b.lit is not None:
        return StrV.of(a.lit + b.lit)
    if a.lit == b'':
        return b
    if b.lit == b'':
        return a
    r = concat2(a, b)
    ps = list(a.parts or (a,))
    for q in (b.parts or (b,)):
        if ps[-1].lit is not None and q.lit is not None:
            ps[-1] = StrV.of(ps[-1].lit + q.lit)
        else:
            ps.append(q)
    r.parts = tuple(ps)
    return r


def concat2(a, b):
    k = z3.BitVec('k!cc', 64)
    arr = z3.Lambda([k], z3.If(z3.ULT(k, a.len), z3.Select(a.arr, k), z3.Select(b.arr, k - a.len)))
    # canonical: b.arr is zero beyond b.len (wrap-around excluded by the length bound)
    return StrV(simp(a.len + b.len), arr)


class Lib:
    def __init__(self):
        self.entries = []
        self.extra = []

    def add(self, rx, f, key=None, front=False):
        e = (re.compile(rx), f, key or rx)
        if front:
            self.entries.insert(0, e)
        else:
            self.entries.append(e)

    def model(self, rx, key=None):
        def deco(f):
            self.add(rx, f, key)
            return f
        return deco

    def find(self, name, d):
        for rx, f, key in self.entries:
            if rx.search(d):
                return key, f
        return None

    def clone(self):
        l = Lib()
        l.entries = list(self.entries)
        for k, v in self.__dict__.items():
            if k not in ('entries', 'extra'):
                setattr(l, k, v)
        return l

    # Houdini candidates
    def auto_candidates(self, ex, st, fr, entry, entry_phi, modset, phis):
        return []


base = Lib()
M = base.model


def nop(ret=None):
    def f(ex, st, a, ins):
        return ret
    return f


# ------------------------------------------------------------------ runtime
@M(r'^operator new\(|^operator new\[\]\(')
def _new(ex, st, a, ins):
    n = as_int(a[0])
    if n is None:
        r = ex.region(st, 'heap', a[0], arr=True)
    else:
        r = ex.region(st, 'heap', n)
    return Ptr(r.id, 0)


@M(r'^operator delete(\[\])?\(')
def _delete(ex, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.rid:
        ex.chk_alive(st, p, 'delete')
        w = st.wr(p.rid)
        w.alive = False
    return None


@M(r'^malloc$')
def _malloc(ex, st, a, ins):
    return _new(ex, st, a, ins)


@M(r'^__cxa_allocate_exception$')
def _alloc_exc(ex, st, a, ins):
    r = ex.region(st, 'exception', as_int(a[0]))
    return Ptr(r.id, 0)


M(r'^__cxa_free_exception$')(nop())


@M(r'^__cxa_throw$')
def _throw(ex, st, a, ins):
    ti = ins.ops[1]
    tn = ti[1] if ti[0] == 'global' else None
    return Outcomes([(st, 'throw', Exc(tn, a[0]))])


@M(r'^__cxa_begin_catch$')
def _bc(ex, st, a, ins):
    st.ghost['catching'] = st.ghost.get('catching', ()) + (st.frames[-1].caught,)
    return a[0]


@M(r'^__cxa_end_catch$')
def _ec(ex, st, a, ins):
    c = st.ghost.get('catching', ())
    st.ghost['catching'] = c[:-1]
    return None


@M(r'^__cxa_rethrow$')
def _rethrow(ex, st, a, ins):
    c = st.ghost.get('catching', ())
    return Outcomes([(st, 'throw', c[-1])])


@M(r'^(std::terminate\(\)|abort|__clang_call_terminate|std::__throw_|__cxa_pure_virtual|__cxa_bad_cast)')
def _term(ex, st, a, ins):
    ex.oblige(st, 'no std::terminate / library precondition failure', False)
    raise PathEnd()


M(r'^__cxa_guard_(release|abort)$')(nop())


@M(r'^__cxa_guard_acquire$')
def _ga(ex, st, a, ins):
    return bv(0, 32)


M(r'^__cxa_atexit$')(nop(bv(0, 32)))
M(r'^pthread_mutex_(init|destroy)$')(nop(bv(0, 32)))

# std exception objects: contents irrelevant, but what() can be called
@M(r'^std::runtime_error::runtime_error\(')
def _rterr(ex, st, a, ins):
    if not hasattr(ex, 'rt_vtable'):
        ex.rt_vtable = ex.region(st, 'vtable for std::runtime_error', 24, kind='global').id
        for k, n in enumerate(('_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD0Ev', '_ZNKSt13runtime_error4whatEv')):
            ex.store(st, Ptr(ex.rt_vtable, 8 * k), Fn(n), PT)
        ex.rt_rs = st.mem[ex.rt_vtable]
    elif ex.rt_vtable not in st.mem:
        st.mem[ex.rt_vtable] = ex.rt_rs
    ex.store(st, a[0], Ptr(ex.rt_vtable, 0), PT)


@M(r'^std::runtime_error::what\(\) const$')
def _what(ex, st, a, ins):
    r = ex.region(st, 'text of an exception', ex.fresh('n', 64), arr=True)
    r.ghost['strv'] = StrV.sym(ex, 'what', st)
    return Ptr(r.id, 0)


M(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|exception|system_error)::(~)?(runtime_error|logic_error|invalid_argument|out_of_range|exception|system_error)\(')(nop())
M(r'^boost::system::system_error::(~)?system_error\(')(nop())


# logging: records are never opened, i.e. no log statement body runs
@M(r'boost::log::record boost::log::sources::basic_composite_logger<.*>::open_record|boost::log::sources::basic_composite_logger<.*>::open_record', key='boost::log open_record (logging disabled)')
def _open_record(ex, st, a, ins):
    # sret(record) = first argument: null implementation pointer
    p = a[0]
    ex.clear_range(st, p.rid, as_int(p.off), 8)
    st.wr(p.rid).cells[as_int(p.off)] = (8, NULL)
    return None


@M(r'Bloomberg::amqpprox::Logging::get\(\)', key='Logging::get')
def _logget(ex, st, a, ins):
    r = ex.region(st, 'logger', 96, default='sym')
    return Ptr(r.id, 0)


M(r'^boost::log::record::(~)?record\(', key='boost::log record')(nop())
M(r'^boost::log::record::operator!\(\) const', key='boost::log record')(nop(z3.BoolVal(True)))
M(r'^boost::log::record::operator bool\(\) const', key='boost::log record')(nop(z3.BoolVal(False)))
M(r'^(boost::)?log::', key='boost::log')(nop())

# error codes: every error category in use here takes non-zero for failure; categories are equal when they are the same object
@M(r'^boost::system::detail::failed_impl\(', key='boost::system::detail::failed_impl')
def _failed_impl(ex, st, a, ins):
    return simp(a[0] != 0)


@M(r'^boost::system::operator==\(boost::system::error_category const&, boost::system::error_category const&\)', key='boost::system error_category ==')
def _cat_eq(ex, st, a, ins):
    return ex.icmp(st, 'eq', a[0], a[1])


# mutexes
M(r'^std::mutex::mutex\(|^std::(recursive_)?mutex::~')(nop())


@M(r'^std::(recursive_)?mutex::lock\(\)')
def _lock(ex, st, a, ins):
    st.ghost['locks'] = st.ghost.get('locks', 0) + 1
    return None


@M(r'^std::(recursive_)?mutex::unlock\(\)')
def _unlock(ex, st, a, ins):
    st.ghost['locks'] = st.ghost.get('locks', 0) - 1
    return None


# ------------------------------------------------------------------ memory functions
@M(r'^(memcpy|memmove)$')
def _memcpy(ex, st, a, ins):
    ex.copy_mem(st, a[0], a[1], a[2])
    return a[0]


@M(r'^memset$')
def _memset(ex, st, a, ins):
    ex.set_mem(st, a[0], z3.Extract(7, 0, a[1]), a[2])
    return a[0]


@M(r'^(memcmp|bcmp)$')
def _memcmp(ex, st, a, ins):
    x = region_bytes(ex, st, a[0], a[2])
    y = region_bytes(ex, st, a[1], a[2])
    r = ex.fresh('memcmp', 32)
    st.assume((r == 0) == x.eq(y))
    return r


@M(r'^strlen$|^std::char_traits<char>::length\(')
def _strlen(ex, st, a, ins):
    return cstr(ex, st, a[0]).len


# ------------------------------------------------------------------ std::string
S = r'^std::string::'


@M(S + r'basic_string\(\)$')
def s_ctor(ex, st, a, ins):
    setstr(ex, st, a[0], StrV.of(b''))


@M(r'^std::string::basic_string<std::allocator<char> >\(char const\*, std::allocator<char> const&\)|^std::string::basic_string\(char const\*, std::allocator<char> const&\)')
def s_ctor_c(ex, st, a, ins):
    setstr(ex, st, a[0], cstr(ex, st, a[1]))


@M(S + r'basic_string\(char const\*, unsigned long(, std::allocator<char> const&)?\)')
def s_ctor_cn(ex, st, a, ins):
    setstr(ex, st, a[0], region_bytes(ex, st, a[1], a[2]))


@M(S + r'basic_string\(std::string const&\)')
def s_copy(ex, st, a, ins):
    setstr(ex, st, a[0], getstr(ex, st, a[1]))


@M(S + r'substr\(unsigned long, unsigned long\) const')
def s_substr(ex, st, a, ins):
    """a[0] result, a[1] text; a position behind the end raises std::out_of_range"""
    t = getstr(ex, st, a[1])
    if not ex.must(st, z3.ULE(a[2], t.len)):
        raise ToolLimit('substr may throw')
    left = simp(t.len - a[2])
    n = simp(z3.If(z3.ULT(a[3], left), a[3], left))
    if z3.is_bv_value(a[2]) and a[2].as_long() == 0 and n.eq(t.len):
        setstr(ex, st, a[0], t)
    else:
        setstr(ex, st, a[0], StrV(n, canon(t.arr, a[2], n)))


@M(S + r'basic_string\(std::string&&\)')
def s_move(ex, st, a, ins):
    setstr(ex, st, a[0], getstr(ex, st, a[1]))
    setstr(ex, st, a[1], StrV.of(b''))


@M(S + r'basic_string<std::basic_string_view.*>\(std::basic_string_view<.*> const&, std::allocator<char> const&\)')
def s_ctor_sv(ex, st, a, ins):
    n, p = load_sv(ex, st, a[1])
    setstr(ex, st, a[0], region_bytes(ex, st, p, n))


class _PT:
    kind = 'ptr'
    size = 8
    width = None


class _I64:
    kind = 'int'
    size = 8
    width = 64


class _I32:
    kind = 'int'
    size = 4
    width = 32


class _I8:
    kind = 'int'
    size = 1
    width = 8


class _I16:
    kind = 'int'
    size = 2
    width = 16


PT, I64, I32, I16, I8 = _PT, _I64, _I32, _I16, _I8


def load_sv(ex, st, p):
    return ex.load(st, p, I64), ex.load(st, p.add(8), PT)


@M(S + r'~basic_string\(\)')
def s_dtor(ex, st, a, ins):
    return None


@M(S + r'operator=\(std::string const&\)|' + S + r'assign\(std::string const&\)')
def s_assign(ex, st, a, ins):
    setstr(ex, st, a[0], getstr(ex, st, a[1]))
    return a[0]


@M(S + r'operator=\(std::string&&\)|' + S + r'assign\(std::string&&\)')
def s_assign_mv(ex, st, a, ins):
    v = getstr(ex, st, a[1])
    setstr(ex, st, a[0], v)
    return a[0]


@M(S + r'swap\(std::string&\)')
def s_swap(ex, st, a, ins):
    x, y = getstr(ex, st, a[0]), getstr(ex, st, a[1])
    setstr(ex, st, a[0], y)
    setstr(ex, st, a[1], x)


@M(S + r'operator=\(char const\*\)|' + S + r'assign\(char const\*\)')
def s_assign_c(ex, st, a, ins):
    setstr(ex, st, a[0], cstr(ex, st, a[1]))
    return a[0]


@M(S + r'assign\(char const\*, unsigned long\)')
def s_assign_cn(ex, st, a, ins):
    setstr(ex, st, a[0], region_bytes(ex, st, a[1], a[2]))
    return a[0]


@M(S + r'_M_replace|' + S + r'replace\(')
def s_replace(ex, st, a, ins):
    raise ToolLimit('std::string::replace')


@M(r'^(std::enable_if<.*>::type )?std::string& std::string::operator=<std::basic_string_view|std::string::operator=<std::basic_string_view|std::string::_If_sv<std::basic_string_view<char, std::char_traits<char> >, std::string&> std::string::(operator=|assign)<|std::enable_if<.*std::basic_string_view.*>::type std::string::(operator=|assign)<std::basic_string_view')
def s_assign_sv(ex, st, a, ins):
    n, p = load_sv(ex, st, a[1])
    setstr(ex, st, a[0], region_bytes(ex, st, p, n))
    return a[0]


@M(S + r'(size|length)\(\) const')
def s_size(ex, st, a, ins):
    return getstr(ex, st, a[0]).len


@M(S + r'empty\(\) const')
def s_empty(ex, st, a, ins):
    return simp(getstr(ex, st, a[0]).len == 0)


@M(S + r'(data|c_str)\(\)( const)?')
def s_data(ex, st, a, ins):
    return str_region(ex, st, getstr(ex, st, a[0]))


@M(S + r'clear\(\)')
def s_clear(ex, st, a, ins):
    setstr(ex, st, a[0], StrV.of(b''))


@M(S + r'(reserve|shrink_to_fit)\(')
def s_reserve(ex, st, a, ins):
    return None


@M(S + r'(append|operator\+=)\(std::string const&\)')
def s_append(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[0]), getstr(ex, st, a[1])))
    return a[0]


@M(S + r'(append|operator\+=)\(char const\*\)')
def s_append_c(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[0]), cstr(ex, st, a[1])))
    return a[0]


@M(S + r'append\(char const\*, unsigned long\)')
def s_append_cn(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[0]), region_bytes(ex, st, a[1], a[2])))
    return a[0]


@M(S + r'(push_back|operator\+=)\(char\)')
def s_push(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[0]), char_str(a[1])))
    return a[0]


@M(S + r'operator std::basic_string_view<char, std::char_traits<char> >\(\) const')
def s_to_sv(ex, st, a, ins):
    v = getstr(ex, st, a[0])
    return Agg([v.len, str_region(ex, st, v)])


@M(r'^bool std::operator==<char, std::char_traits<char>, std::allocator<char> >\(std::string const&, std::string const&\)|^bool std::operator==<char>\(std::string const&, std::string const&\)|std::enable_if<.*>::type std::operator==<char>\(std::string const&, std::string const&\)')
def s_eq(ex, st, a, ins):
    return simp(getstr(ex, st, a[0]).eq(getstr(ex, st, a[1])))


@M(r'^bool std::operator!=<char, std::char_traits<char>, std::allocator<char> >\(std::string const&, std::string const&\)')
def s_ne(ex, st, a, ins):
    return simp(z3.Not(getstr(ex, st, a[0]).eq(getstr(ex, st, a[1]))))


@M(r'^bool std::operator==<char, std::char_traits<char>, std::allocator<char> >\(std::string const&, char const\*\)')
def s_eq_c(ex, st, a, ins):
    return simp(getstr(ex, st, a[0]).eq(cstr(ex, st, a[1])))


@M(r'^bool std::operator!=<char, std::char_traits<char>, std::allocator<char> >\(std::string const&, char const\*\)')
def s_ne_c(ex, st, a, ins):
    return simp(z3.Not(getstr(ex, st, a[0]).eq(cstr(ex, st, a[1]))))


@M(r'^std::string std::operator\+<char, std::char_traits<char>, std::allocator<char> >\(std::string( const&|&&), std::string( const&|&&)\)')
def s_plus(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[1]), getstr(ex, st, a[2])))


@M(r'^std::string std::operator\+<char, std::char_traits<char>, std::allocator<char> >\(std::string( const&|&&), char const\*\)')
def s_plus_c(ex, st, a, ins):
    setstr(ex, st, a[0], concat(getstr(ex, st, a[1]), cstr(ex, st, a[2])))


@M(r'^std::string std::operator\+<char, std::char_traits<char>, std::allocator<char> >\(char const\*, std::string( const&|&&)\)')
def s_c_plus(ex, st, a, ins):
    setstr(ex, st, a[0], concat(cstr(ex, st, a[1]), getstr(ex, st, a[2])))


M(r'^std::allocator<.*>::(~)?allocator\(|^std::__new_allocator<.*>::(~)?__new_allocator\(')(nop())



# ------------------------------------------------------------------ vectors of bytes
class SeqV:
    """opaque sequence (vector<FieldValue>, field table ...)"""
    size = 24
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


def vec_bytes(ex, st, p):
    """(len, begin Ptr) of a vector<byte> at p"""
    b = ex.load(st, p, PT)
    e = ex.load(st, p.add(8), PT)
    if is_null(b) and is_null(e):
        return bv(0), NULL
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.rid == e.rid:
        return simp(e.off - b.off), b
    raise ToolLimit('vector representation')


def set_vec(ex, st, p, b, n):
    """point vector at p to region ptr b with n bytes"""
    e = b.add(n) if b.rid else NULL
    for o, v in ((0, b), (8, e), (16, e)):
        ex.store(st, p.add(o), v, PT)


VBP = r'VB::'


@M('^' + VBP + r'vector\(\)')
def vb_ctor(ex, st, a, ins):
    for o in (0, 8, 16):
        ex.store(st, a[0].add(o), NULL, PT)


@M('^' + VBP + r'resize\(unsigned long\)')
def vb_resize(ex, st, a, ins):
    n0, b0 = vec_bytes(ex, st, a[0])
    n = a[1]
    arr = st.mem[b0.rid].arr if b0.rid else ZARR
    if b0.rid and arr is None:
        ex.to_arr(st, b0.rid)
        arr = st.mem[b0.rid].arr
    off = b0.off if b0.rid else bv(0)
    ni = as_int(n)
    nn = n
    keep = simp(z3.If(z3.ULT(n0, nn), n0, nn))
    r = ex.region(st, 'vecbytes', ni if ni is not None else n, arr=canon(arr, off, keep))
    set_vec(ex, st, a[0], Ptr(r.id, 0), n)


@M('^' + VBP + r'vector\(VB const&\)|^' + VBP + r'operator=\(VB const&\)')
def vb_copy(ex, st, a, ins):
    n, b = vec_bytes(ex, st, a[1])
    s = region_bytes(ex, st, b, n) if b.rid else StrV.of(b'')
    new_vec(ex, st, a[0], s)
    return a[0]


def new_vec(ex, st, p, s):
    r = ex.region(st, 'vecbytes', simp(s.len), arr=s.arr)
    set_vec(ex, st, p, Ptr(r.id, 0), s.len)


@M('^' + VBP + r'vector\(VB&&\)|^' + VBP + r'operator=\(VB&&\)')
def vb_move(ex, st, a, ins):
    for o in (0, 8, 16):
        ex.store(st, a[0].add(o), ex.load(st, a[1].add(o), PT), PT)
        ex.store(st, a[1].add(o), NULL, PT)
    return a[0]


M(r"^(std::vector<.*>|VFV|VB)::~vector\(\)")(nop())


# ------------------------------------------------------------------ shared_ptr / unique_ptr lifetime
M(r'^std::(__)?(shared_ptr|weak_ptr|shared_count|weak_count)<.*>::~(__)?(shared_ptr|weak_ptr|shared_count|weak_count)\(\)', key='smart pointer destruction (no observable effect)')(nop())


# ------------------------------------------------------------------ AMQP field values (boost::variant)
SEQ = z3.DeclareSort('SeqT')
FVR = z3.Datatype('FVal')
FVR.declare('mkfv', ('ty', z3.BitVecSort(8)), ('kind', z3.BitVecSort(8)), ('num', BV64), ('len', BV64), ('arr', ARR), ('ref', SEQ))
FVR = FVR.create()
seq_len = z3.Function('seq_len', SEQ, BV64)
seq_at = z3.Function('seq_at', SEQ, BV64, FVR)
seq_nlen = z3.Function('seq_name_len', SEQ, BV64, BV64)
seq_narr = z3.Function('seq_name_arr', SEQ, BV64, ARR)
seq_snoc = z3.Function('seq_snoc', SEQ, BV64, ARR, FVR, SEQ)
seq_nil = z3.Const('seq_nil', SEQ)
K_STR, K_U64, K_I64, K_BOOL, K_VB, K_VFV, K_TAB = range(7)
KIND = {'std::string': K_STR, 'unsigned long': K_U64, 'long': K_I64, 'bool': K_BOOL, 'VB': K_VB, 'VFV': K_VFV,
        'std::shared_ptr<Bloomberg::amqpprox::FieldTable>': K_TAB}


class VarV:
    """value of the FieldValue variant"""
    size = 40
    __slots__ = ('kind', 'p')

    def __init__(self, kind, p):
        self.kind = kind
        self.p = p

    def havoc(self, ex, st):
        return None


class SeqVal:
    """vector<FieldValue> or FieldTable contents"""
    size = 24
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def havoc(self, ex, st):
        return SeqVal(z3.Const('hvseq!%d' % ex_next(ex), SEQ))


def ex_next(ex):
    ex.nsym += 1
    return ex.nsym


def getseq(ex, st, p):
    v = ex.aget(st, p, default=lambda e, s, q: SeqVal(z3.Const('%s.%d@%s_seq' % (e.regions[q.rid].name, q.rid, as_int(q.off)), SEQ))
                if e.regions[q.rid].default == 'sym' else None)
    if not isinstance(v, SeqVal):
        raise ToolLimit('no sequence object (%s)' % ex.where(st))
    return v


def fv_term(ex, st, p):
    """FVal term of the FieldValue object at p"""
    v = ex.aget(st, p)
    if isinstance(v, FvElem):
        return v.t
    if not isinstance(v, VarV):
        raise ToolLimit('no field value object (%s)' % ex.where(st))
    ty = ex.load(st, p.add(40), I8)
    return mkfv(ty, v)


def mkfv(ty, v):
    z = bv(0)
    if v.kind in (K_STR, K_VB):
        return FVR.mkfv(ty, bv(v.kind, 8), z, v.p.len, v.p.arr, seq_nil)
    if v.kind in (K_U64, K_I64):
        return FVR.mkfv(ty, bv(v.kind, 8), v.p, z, ZARR, seq_nil)
    if v.kind == K_BOOL:
        return FVR.mkfv(ty, bv(v.kind, 8), z3.If(v.p, bv(1), bv(0)), z, ZARR, seq_nil)
    if v.kind == K_VFV:
        return FVR.mkfv(ty, bv(v.kind, 8), z, z, ZARR, v.p)
    if v.kind == K_TAB:
        t = v.p[1]
        return FVR.mkfv(ty, bv(v.kind, 8), z, z, ZARR, t)
    raise ToolLimit('variant kind')


class FvElem:
    """FieldValue known only as a term"""
    size = 48
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


def var_of(ex, st, kind, p):
    """read the C++ object of the given alternative at p"""
    if kind == K_STR:
        return VarV(kind, getstr(ex, st, p))
    if kind in (K_U64, K_I64):
        return VarV(kind, ex.load(st, p, I64))
    if kind == K_BOOL:
        return VarV(kind, simp(ex.load(st, p, I8) != 0))
    if kind == K_VB:
        n, b = vec_bytes(ex, st, p)
        return VarV(kind, region_bytes(ex, st, b, n) if b.rid else StrV.of(b''))
    if kind == K_VFV:
        return VarV(kind, getseq(ex, st, p).t)
    if kind == K_TAB:
        q = ex.load(st, p, PT)
        if isinstance(q, Ptr) and q.rid:
            return VarV(kind, (q, getseq(ex, st, q).t))
        if isinstance(q, Ptr):
            ex.nsym += 1
            return VarV(kind, (NULL, z3.Const('no_table!%d' % ex.nsym, SEQ)))
        raise ToolLimit('field table pointer')


V_ = r'^FVariant::'


@M(V_ + r'variant<')
def var_ctor(ex, st, a, ins):
    d = ex.dem(ins.x['callee'][1])
    m = re.match(V_ + r'variant<(.*?) ?>\(', d)
    t = m.group(1)
    k = KIND.get(t.strip())
    if k is None:
        raise ToolLimit('variant alternative ' + t[:60])
    ex.aset(st, a[0], var_of(ex, st, k, a[1]))


@M(V_ + r'(variant|operator=|variant_assign)\(FVariant( const&|&&)\)')
def var_copy(ex, st, a, ins):
    v = ex.aget(st, a[1])
    if not isinstance(v, VarV):
        raise ToolLimit('variant copy of unknown value')
    ex.aset(st, a[0], v)
    return a[0]


M(V_ + r'~variant\(\)')(nop())


@M(r'boost::(strict_|relaxed_)?get<(.*?)>\(FVariant( const)?&', key='boost::get on field value variant')
def var_get(ex, st, a, ins):
    d = ex.dem(ins.x['callee'][1])
    m = re.search(r'boost::(?:strict_|relaxed_)?get<(std::string|unsigned long|long|bool|VB|VFV|std::shared_ptr<Bloomberg::amqpprox::FieldTable>)', d)
    k = KIND[m.group(1)]
    v = ex.aget(st, a[0])
    if isinstance(v, FvElem):
        c = FVR.kind(v.t) == bv(k, 8)
        bad = ex.feasible(st, z3.Not(c))
        good = ex.feasible(st, c)
        out = []
        if bad:
            f = st.fork() if good else st
            f.assume(simp(z3.Not(c)))
            out.append((f, 'throw', Exc('_ZTIN5boost7bad_getE', NULL)))
        if good:
            st.assume(simp(c))
            t = v.t
            if k in (K_STR, K_VB):
                st.assume(z3.ULE(FVR.len(t), bv(1 << 40)))
            v = VarV(k, {K_STR: lambda: StrV(FVR.len(t), FVR.arr(t)), K_VB: lambda: StrV(FVR.len(t), FVR.arr(t)),
                         K_U64: lambda: FVR.num(t), K_I64: lambda: FVR.num(t), K_BOOL: lambda: FVR.num(t) != 0,
                         K_VFV: lambda: FVR.ref(t), K_TAB: lambda: (tab_region(ex, st, FVR.ref(t)), FVR.ref(t))}[k]())
            out.append((st, 'ret', var_ref(ex, st, v)))
        return Outcomes(out)
    if not isinstance(v, VarV):
        raise ToolLimit('get on unknown variant')
    if v.kind != k:
        return Outcomes([(st, 'throw', Exc('_ZTIN5boost7bad_getE', NULL))])
    return var_ref(ex, st, v)


def tab_region(ex, st, t):
    r = ex.region(st, 'fieldtable', 24)
    ex.aset(st, Ptr(r.id, 0), SeqVal(t))
    return Ptr(r.id, 0)


def var_ref(ex, st, v):
    k = v.kind
    r = ex.region(st, 'variantvalue', 40)
    p = Ptr(r.id, 0)
    if k == K_STR:
        setstr(ex, st, p, v.p)
    elif k in (K_U64, K_I64):
        ex.store(st, p, v.p, I64)
    elif k == K_BOOL:
        ex.store(st, p, z3.If(v.p, bv(1, 8), bv(0, 8)), I8)
    elif k == K_VB:
        new_vec(ex, st, p, v.p)
    elif k == K_VFV:
        ex.aset(st, p, SeqVal(v.p))
    elif k == K_TAB:
        ex.store(st, p, v.p[0], PT)
        ex.store(st, p.add(8), NULL, PT)
    return p


@M(r'^VFV::vector\(\)')
def vfv_ctor(ex, st, a, ins):
    ex.aset(st, a[0], SeqVal(seq_nil))


@M(r'^VFV::(vector|operator=)\(VFV( const&|&&)\)')
def vfv_copy(ex, st, a, ins):
    ex.aset(st, a[0], getseq(ex, st, a[1]))
    return a[0]


@M(r'^VFV::(push_back|emplace_back<.*>)\(Bloomberg::amqpprox::FieldValue( const&|&&|&)\)|VFV::emplace_back<Bloomberg::amqpprox::FieldValue')
def vfv_push(ex, st, a, ins):
    s = getseq(ex, st, a[0])
    ex.aset(st, a[0], SeqVal(seq_snoc(s.t, bv(0), ZARR, fv_term(ex, st, a[1]))))
    return None


@M(r'^VFV::size\(\) const')
def vfv_size(ex, st, a, ins):
    n = seq_len(getseq(ex, st, a[0]).t)
    st.assume(z3.ULE(n, bv(1 << 40)))
    return n


def elem_facts(ex, st, s, i):
    h = getattr(ex.lib, 'elem_facts', None)
    if h:
        h(st, s, i)


def fv_object(ex, st, t):
    """FieldValue object (fresh region) for term t: forks are made when it is inspected"""
    r = ex.region(st, 'fieldvalue', 48)
    p = Ptr(r.id, 0)
    ex.aset(st, p, FvElem(t))
    st.wr(r.id).cells[40] = (1, FVR.ty(t))
    return p


@M(r'^VFV::(operator\[\]|at)\(unsigned long\)( const)?')
def vfv_at(ex, st, a, ins):
    s = getseq(ex, st, a[0])
    ex.oblige(st, 'vector index in range', z3.ULT(a[1], seq_len(s.t)))
    elem_facts(ex, st, s.t, a[1])
    return fv_object(ex, st, seq_at(s.t, a[1]))


@M(r'^Bloomberg::amqpprox::FieldValue::(FieldValue|operator=)\(Bloomberg::amqpprox::FieldValue( const&|&&)\)', key='FieldValue memberwise copy')
def fv_copy(ex, st, a, ins):
    v = ex.aget(st, a[1])
    if v is None:
        raise ToolLimit('copy of unknown field value')
    ex.aset(st, a[0], v)
    ex.store(st, a[0].add(40), ex.load(st, a[1].add(40), I8), I8)
    return a[0]


M(r'^Bloomberg::amqpprox::FieldValue::~FieldValue\(\)', key='FieldValue destructor')(nop())
M(r'^Bloomberg::amqpprox::FieldTable::~FieldTable\(\)', key='FieldTable destructor')(nop())

VP = r'std::vector<std::pair<std::string, Bloomberg::amqpprox::FieldValue>, std::allocator<std::pair<std::string, Bloomberg::amqpprox::FieldValue> > >::'


@M('^' + VP + r'vector\(\)')
def vp_ctor(ex, st, a, ins):
    ex.aset(st, a[0], SeqVal(seq_nil))


@M('^' + VP + r'(vector|operator=)\(std::vector<.*>( const&|&&)\)|^Bloomberg::amqpprox::FieldTable::(FieldTable|operator=)\(Bloomberg::amqpprox::FieldTable( const&|&&)\)', key='FieldTable memberwise copy')
def vp_copy(ex, st, a, ins):
    ex.aset(st, a[0], getseq(ex, st, a[1]))
    return a[0]


@M(r'^std::pair<.*> std::make_pair<std::string const&, Bloomberg::amqpprox::FieldValue const&>')
def mk_pair(ex, st, a, ins):
    setstr(ex, st, a[0], getstr(ex, st, a[1]))
    fv_copy(ex, st, [a[0].add(32), a[2]], ins)


M(r'^std::pair<std::string, Bloomberg::amqpprox::FieldValue>::~pair\(\)')(nop())


@M(VP + r'(emplace_back|push_back)')
def vp_push(ex, st, a, ins):
    s = getseq(ex, st, a[0])
    n = getstr(ex, st, a[1])
    ex.aset(st, a[0], SeqVal(seq_snoc(s.t, n.len, n.arr, fv_term(ex, st, a[1].add(32)))))
    return a[1]


@M('^' + VP + r'clear\(\)')
def vp_clear(ex, st, a, ins):
    ex.aset(st, a[0], SeqVal(seq_nil))


@M('^' + VP + r'size\(\) const')
def vp_size(ex, st, a, ins):
    n = seq_len(getseq(ex, st, a[0]).t)
    st.assume(z3.ULE(n, bv(1 << 40)))
    return n


@M('^' + VP + r'(operator\[\]|at)\(unsigned long\)( const)?')
def vp_at(ex, st, a, ins):
    s = getseq(ex, st, a[0])
    ex.oblige(st, 'vector index in range', z3.ULT(a[1], seq_len(s.t)))
    elem_facts(ex, st, s.t, a[1])
    r = ex.region(st, 'tableentry', 80)
    p = Ptr(r.id, 0)
    st.assume(z3.ULE(seq_nlen(s.t, a[1]), bv(1 << 40)))
    ex.aset(st, p, StrV(seq_nlen(s.t, a[1]), seq_narr(s.t, a[1])))
    ex.aset(st, p.add(32), FvElem(seq_at(s.t, a[1])))
    st.wr(r.id).cells[72] = (1, FVR.ty(seq_at(s.t, a[1])))
    return p


@M(r'std::shared_ptr<.*FieldTable>.* std::make_shared<Bloomberg::amqpprox::FieldTable>\(\)|^std::shared_ptr<.*> std::make_shared<Bloomberg::amqpprox::FieldTable>')
def mk_shared_ft(ex, st, a, ins):
    r = ex.region(st, 'fieldtable', 24)
    ex.aset(st, Ptr(r.id, 0), SeqVal(seq_nil))
    ex.store(st, a[0], Ptr(r.id, 0), PT)
    ex.store(st, a[0].add(8), NULL, PT)
