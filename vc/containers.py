"""Assumed contracts of std::map / std::unordered_map / std::unordered_set (trusted base).

A container of unknown contents is a list of *known* entries (those some lookup has asked for, each with a symbolic
"is present" flag) and an unknown rest whose keys differ from all known ones.  Lookups of new keys extend the list.
Iteration visits every present known entry once and any number of elements of the rest, in any order; the elements of
the rest are represented by one scratch node that is refilled with arbitrary contents each time."""
import re
import z3
from engine import NULL, Agg, Exc, Outcomes, PathEnd, Ptr, Raw, ToolLimit, as_int, bv, simp
import libmodels as L
from libmodels import PT, I8, I16, I32, I64, StrV, getstr, setstr

M = L.base.model
OOR = '_ZTISt12out_of_range'


class MapV:
    size = 48
    __slots__ = ('ents', 'rest', 'kind')

    def __init__(self, ents, rest, kind):
        self.ents = tuple(ents)     # (key, node region, present)
        self.rest = rest            # None: nothing else in it; else name of the unknown rest
        self.kind = kind            # (ordered, key type, value type, is set)

    def havoc(self, ex, st):
        ex.nsym += 1
        return MapV([(k, r, ex.fresh('present', 1)) for k, r, _ in self.ents], 'rest!%d' % ex.nsym, self.kind)


def split_args(s):
    """top level template arguments"""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


_kinds = {}


def kind_of(d):
    """container described by the demangled name of one of its member functions"""
    if d in _kinds:
        return _kinds[d]
    m = re.search(r'std::(unordered_map|map|unordered_set|set)<', d)
    i = m.end()
    depth, j = 1, i
    while depth:
        depth += {'<': 1, '>': -1}.get(d[j], 0)
        j += 1
    a = split_args(d[i:j - 1])
    c = m.group(1)
    st = 'set' in c
    k = ('un' not in c, a[0], None if st else a[1], st)
    _kinds[d] = k
    return k


def method_of(d):
    """name of the member function of the outermost container"""
    m = re.search(r'std::(unordered_map|map|unordered_set|set)<', d)
    i = m.end()
    depth, j = 1, i
    while depth:
        depth += {'<': 1, '>': -1}.get(d[j], 0)
        j += 1
    if not d.startswith('::', j):
        return None
    r = re.match(r'::(~?\w+|operator\[\]|operator=)\s*[<(]', d[j:])
    return r.group(1) if r else None


INTS = {'unsigned long': I64, 'long': I64, 'unsigned long long': I64, 'int': I32, 'unsigned int': I32, 'bool': I8,
        'unsigned short': I16, 'unsigned char': I8, 'char': I8}
SIZES = {'std::string': (32, 8), 'unsigned long': (8, 8), 'long': (8, 8), 'int': (4, 4), 'unsigned int': (4, 4), 'bool': (1, 1),
         'unsigned short': (2, 2)}


def voff(kind):
    return 32 if kind[0] else 8


def size_of(ex, t):
    if t in SIZES:
        return SIZES[t]
    if t.endswith('*'):
        return (8, 8)
    m = re.match(r'std::pair<(.*)>$', t)
    if m:
        a, b = split_args(m.group(1))
        (sa, aa), (sb, ab) = size_of(ex, a), size_of(ex, b)
        al = max(aa, ab)
        o = (sa + ab - 1) // ab * ab
        return ((o + sb + al - 1) // al * al, al)
    if re.match(r'std::shared_ptr<', t):
        return (16, 8)
    if re.match(r'std::unique_ptr<', t):
        return (8, 8)
    if re.match(r'std::function<', t):
        return (32, 8)
    if re.match(r'std::vector<', t):
        return (24, 8)
    n = t.split('::')[-1]
    if ('sizeof_' + n) in ex.m.defs:
        from c_frame import objsize
        return (objsize(ex, n), 8)
    raise ToolLimit('size of ' + t)


def key_size(ex, kind):
    return size_of(ex, kind[1])


def val_off(ex, kind):
    s, _ = key_size(ex, kind)
    try:
        _, a = size_of(ex, kind[2])
    except ToolLimit:
        a = 8
    return voff(kind) + (s + a - 1) // a * a


def load_key(ex, st, p, kind):
    t = kind[1]
    if t == 'std::string':
        return getstr(ex, st, p)
    if t in INTS:
        return ex.load(st, p, INTS[t])
    raise ToolLimit('container keyed by ' + t)


def store_key(ex, st, p, kind, k):
    if isinstance(k, StrV):
        setstr(ex, st, p, k)
    else:
        ex.store(st, p, k, INTS[kind[1]])


def key_eq(a, b):
    if isinstance(a, StrV):
        return simp(a.eq(b))
    return simp(a == b)


def get_map(ex, st, p, d):
    kind = kind_of(d)

    def mk(e, s, q):
        r = e.regions[q.rid]
        if r.default == 'zero':
            return MapV((), None, kind)
        if r.default == 'sym':
            e.nsym += 1
            return MapV((), 'rest!%d' % e.nsym, kind)
        return None
    v = ex.aget(st, p, default=mk)
    if not isinstance(v, MapV):
        raise ToolLimit('no container at %r (%s)' % (p, type(v).__name__))
    return v


def new_node(ex, st, kind, key, default, mp):
    r = ex.region(st, 'node', 4096, default=default)
    r.ghost['map'] = (mp.rid, as_int(mp.off))
    store_key(ex, st, Ptr(r.id, voff(kind)), kind, key)
    return r


def lookup(ex, st, p, d, key):
    """[(state, index of the known entry, present or not)]: index None if surely absent"""
    out = []
    mv = get_map(ex, st, p, d)
    cur = st
    for i, (k, rid, pres) in enumerate(mv.ents):
        t, f = ex.fork_on(cur, key_eq(key, k))
        if t is not None:
            out.append((t, i))
        if f is None:
            cur = None
            break
        cur = f
    if cur is not None:
        if mv.rest is None:
            out.append((cur, None))
        else:
            r = new_node(ex, cur, mv.kind, key, 'sym', p)
            ents = mv.ents + ((key, r.id, ex.fresh('present', 1)),)
            ex.aset(cur, p, MapV(ents, mv.rest, mv.kind))
            out.append((cur, len(ents) - 1))
    res = []
    for s, i in out:
        if i is None:
            res.append((s, None, False))
            continue
        pres = get_map(ex, s, p, d).ents[i][2]
        t, f = ex.fork_on(s, pres)
        if t is not None:
            res.append((t, i, True))
        if f is not None:
            res.append((f, i, False))
    return res


def set_present(ex, st, p, mv, i, val):
    ents = list(mv.ents)
    k, r, _ = ents[i]
    ents[i] = (k, r, z3.BoolVal(val))
    ex.aset(st, p, MapV(ents, mv.rest, mv.kind))


def add_entry(ex, st, p, d, i, key):
    """entry for an absent key -> node pointer (value zero)"""
    mv = get_map(ex, st, p, d)
    r = new_node(ex, st, mv.kind, key, 'zero', p)
    ents = list(mv.ents)
    e = (key, r.id, z3.BoolVal(True))
    if i is None:
        ents.append(e)
    else:
        ents[i] = e
    ex.aset(st, p, MapV(ents, mv.rest, mv.kind))
    return Ptr(r.id, 0)


def end_of(p, kind):
    return p.add(8) if kind[0] else NULL


def node_of(ex, st, p, d, i):
    return Ptr(get_map(ex, st, p, d).ents[i][1], 0)


def m_find(ex, st, a, d):
    kind = kind_of(d)
    key = load_key(ex, st, a[1], kind)
    return Outcomes([(s, 'ret', node_of(ex, s, a[0], d, i) if pr else end_of(a[0], kind)) for s, i, pr in lookup(ex, st, a[0], d, key)])


def m_count(ex, st, a, d):
    key = load_key(ex, st, a[1], kind_of(d))
    return Outcomes([(s, 'ret', bv(1 if pr else 0)) for s, i, pr in lookup(ex, st, a[0], d, key)])


def m_contains(ex, st, a, d):
    key = load_key(ex, st, a[1], kind_of(d))
    return Outcomes([(s, 'ret', z3.BoolVal(bool(pr))) for s, i, pr in lookup(ex, st, a[0], d, key)])


def m_index(ex, st, a, d):
    kind = kind_of(d)
    key = load_key(ex, st, a[1], kind)
    out = []
    for s, i, pr in lookup(ex, st, a[0], d, key):
        n = node_of(ex, s, a[0], d, i) if pr else add_entry(ex, s, a[0], d, i, key)
        out.append((s, 'ret', n.add(val_off(ex, kind))))
    return Outcomes(out)


def m_at(ex, st, a, d):
    kind = kind_of(d)
    key = load_key(ex, st, a[1], kind)
    out = []
    for s, i, pr in lookup(ex, st, a[0], d, key):
        if pr:
            out.append((s, 'ret', node_of(ex, s, a[0], d, i).add(val_off(ex, kind))))
        else:
            out.append((s, 'throw', Exc(OOR, NULL)))
    return Outcomes(out)


def copy_obj(ex, st, dst, src, n):
    ex.copy_mem(st, dst, src, n)


def insert_generic(ex, st, a, d, kp, vp, assign=False):
    kind = kind_of(d)
    key = load_key(ex, st, kp, kind)
    out = []
    for s, i, pr in lookup(ex, st, a[0], d, key):
        if pr:
            n = node_of(ex, s, a[0], d, i)
            if assign and vp is not None:
                copy_obj(ex, s, n.add(val_off(ex, kind)), vp, size_of(ex, kind[2])[0])
        else:
            n = add_entry(ex, s, a[0], d, i, key)
            if vp is not None:
                copy_obj(ex, s, n.add(val_off(ex, kind)), vp, size_of(ex, kind[2])[0])
        out.append((s, 'ret', Agg([n, z3.BoolVal(not pr)])))
    return Outcomes(out)


def m_emplace(ex, st, a, d):
    kind = kind_of(d)
    if kind[3]:
        if len(a) != 2:
            raise ToolLimit('emplace into a set')
        return insert_generic(ex, st, a, d, a[1], None)
    if len(a) == 2:
        # a pair
        return insert_generic(ex, st, a, d, a[1], a[1].add(val_off(ex, kind) - voff(kind)))
    if len(a) != 3:
        raise ToolLimit('emplace with %d arguments' % (len(a) - 1))
    return insert_generic(ex, st, a, d, a[1], a[2])


def m_insert_or_assign(ex, st, a, d):
    return insert_generic(ex, st, a, d, a[1], a[2], True)


def m_insert(ex, st, a, d):
    if len(a) != 2:
        raise ToolLimit('range insert')
    return m_emplace(ex, st, a, d)


def m_erase(ex, st, a, d, ins=None):
    kind = kind_of(d)
    v = a[1]
    byiter = '_iterator<' in d[d.rindex('::erase'):]
    if not byiter:
        key = load_key(ex, st, v, kind)
        out = []
        for s, i, pr in lookup(ex, st, a[0], d, key):
            if pr:
                set_present(ex, s, a[0], get_map(ex, s, a[0], d), i, False)
            out.append((s, 'ret', bv(1 if pr else 0)))
        return Outcomes(out)
    if len(a) > 2:
        raise ToolLimit('range erase')
    if not isinstance(v, Ptr) or v.rid == 0 or 'map' not in ex.regions[v.rid].ghost:
        ex.oblige(st, 'erase is given a valid iterator', False)
        raise PathEnd()
    mv = get_map(ex, st, a[0], d)
    for i, (k, rid, pr) in enumerate(mv.ents):
        if rid == v.rid:
            ex.oblige(st, 'the erased element is in the container', pr)
            set_present(ex, st, a[0], mv, i, False)
    ikey = (a[0].rid, as_int(a[0].off))
    if ikey in st.ghost.get('iter', {}):
        return next_of(ex, st, a[0], d)
    # not while iterating: the successor is any other element
    return Outcomes([(st, 'ret', Raw(ex.fresh('successor', 64)))])


# ------------------------------------------------------------------ iteration
def set_iter(st, key, v):
    it = dict(st.ghost.get('iter', {}))
    if v is None:
        it.pop(key, None)
    else:
        it[key] = v
    st.ghost['iter'] = it


def next_of(ex, st, p, d):
    kind = get_map_kind(ex, st, p, d)
    mv = ex.aget(st, p)
    ikey = (p.rid, as_int(p.off))
    cur = st.ghost.get('iter', {}).get(ikey)
    if cur is None:
        raise ToolLimit('iterator advanced outside an iteration from begin()')
    visited = frozenset(cur[0])
    out = []
    left = [i for i in range(len(mv.ents)) if i not in visited]
    # the end: nothing known left
    c = z3.And(*[z3.Not(mv.ents[i][2]) for i in left]) if left else z3.BoolVal(True)
    cands = []
    for i in left:
        cands.append((mv.ents[i][2], i))
    if mv.rest is not None:
        cands.append((z3.BoolVal(True), 'rest'))
    for cond, i in cands:
        if not ex.feasible(st, cond):
            continue
        s = st.fork()
        s.assume(simp(cond))
        if i == 'rest':
            rid = rest_node(ex, s, p, mv)
            set_iter(s, ikey, (tuple(sorted(visited)), 'rest'))
            out.append((s, 'ret', Ptr(rid, 0)))
        else:
            set_iter(s, ikey, (tuple(sorted(visited | {i})), str(i)))
            out.append((s, 'ret', Ptr(mv.ents[i][1], 0)))
    if ex.feasible(st, c):
        st.assume(simp(c))
        set_iter(st, ikey, None)
        out.append((st, 'ret', end_of(p, kind)))
    return Outcomes(out)


def get_map_kind(ex, st, p, d):
    return get_map(ex, st, p, d).kind if d else ex.aget(st, p).kind


def rest_node(ex, st, p, mv):
    """the scratch node, filled with an arbitrary element whose key differs from all known ones"""
    g = ex.regions[p.rid].ghost.setdefault('restnode', {})
    o = as_int(p.off)
    rid = g.get(o)
    if rid is None or rid not in st.mem:
        if rid is None:
            r = ex.region(st, 'otherelem', 4096, default='sym')
            r.ghost['scratch'] = True
            r.ghost['map'] = (p.rid, o)

            def lazy(e, s, off, ty):
                if ty.kind == 'ptr':
                    return Raw(e.fresh('elem_p', 64))
                if ty.kind == 'int':
                    return e.fresh('elem', 8 * ty.size)
                return None
            r.ghost['lazy'] = lazy
            g[o] = rid = r.id
        else:
            from engine import RS
            st.mem[rid] = RS()
            st.owned.add(rid)
    w = st.wr(rid)
    w.cells = {}
    w.absd = {}
    w.arr = None
    w.alive = True
    kp = Ptr(rid, voff(mv.kind))
    k = load_key(ex, st, kp, mv.kind)
    for kk, _, _ in mv.ents:
        st.assume(z3.Not(key_eq(k, kk)))
    return rid


def m_begin(ex, st, a, d):
    mv = get_map(ex, st, a[0], d)
    ikey = (a[0].rid, as_int(a[0].off))
    if mv.rest is not None:
        rest_node(ex, st.fork(), a[0], mv)     # exists before any loop
        rid = ex.regions[a[0].rid].ghost['restnode'][as_int(a[0].off)]
        if rid not in st.mem:
            from engine import RS
            st.mem[rid] = RS()
            st.owned.add(rid)
    set_iter(st, ikey, ((), 'begin'))
    return next_of(ex, st, a[0], d)


def m_end(ex, st, a, d):
    return end_of(a[0], kind_of(d))


@M(r'^std::_Rb_tree_increment\(', key='std::map iteration')
def rb_inc(ex, st, a, ins):
    n = a[0]
    if not isinstance(n, Ptr) or n.rid == 0 or 'map' not in ex.regions[n.rid].ghost:
        raise ToolLimit('iterator increment')
    m = ex.regions[n.rid].ghost['map']
    return next_of(ex, st, Ptr(*m), None)


@M(r'^std::__detail::_Node_iterator_base<.*>::_M_incr\(\)$', key='std::unordered_map iteration')
def node_inc(ex, st, a, ins):
    n = ex.load(st, a[0], PT)
    if not isinstance(n, Ptr) or n.rid == 0 or 'map' not in ex.regions[n.rid].ghost:
        raise ToolLimit('iterator increment')
    m = ex.regions[n.rid].ghost['map']
    o = next_of(ex, st, Ptr(*m), None)
    for s, k, v in o.items:
        ex.store(s, a[0], v, PT)
    return Outcomes([(s, 'ret', None) for s, k, v in o.items])


def m_size(ex, st, a, d):
    mv = get_map(ex, st, a[0], d)
    n = bv(0)
    for k, r, pr in mv.ents:
        n = n + z3.If(pr, bv(1), bv(0))
    if mv.rest is not None:
        r = z3.BitVec('count_' + mv.rest, 64)
        st.assume(z3.ULE(r, bv(1 << 40)))
        n = n + r
    return simp(n)


def m_empty(ex, st, a, d):
    return simp(m_size(ex, st, a, d) == 0)


def m_clear(ex, st, a, d):
    mv = get_map(ex, st, a[0], d)
    ex.aset(st, a[0], MapV([(k, r, z3.BoolVal(False)) for k, r, _ in mv.ents], None, mv.kind))


def m_ctor(ex, st, a, d):
    kind = kind_of(d)
    if len(a) == 1:
        ex.aset(st, a[0], MapV((), None, kind))
        return None
    if len(a) == 2 and isinstance(a[1], Ptr):
        src = get_map(ex, st, a[1], d)
        clone(ex, st, a[0], src)
        if '&&)' in d:
            ex.aset(st, a[1], MapV((), None, kind))
        return None
    raise ToolLimit('container constructed with %d arguments' % (len(a) - 1))


def clone(ex, st, p, src):
    """copies share the unknown rest (same keys, same values) but have nodes of their own"""
    ents = []
    for k, rid, pr in src.ents:
        r = ex.region(st, 'node', 4096, default=ex.regions[rid].default)
        r.name = ex.regions[rid].name
        r.ghost = dict(ex.regions[rid].ghost)
        r.ghost['map'] = (p.rid, as_int(p.off))
        q = st.mem[rid].copy()
        st.mem[r.id] = q
        st.owned.add(r.id)
        ents.append((k, r.id, pr))
    if src.rest is not None and any(ex.regions[rid].default == 'sym' for _, rid, _ in src.ents):
        pass
    ex.aset(st, p, MapV(ents, src.rest, src.kind))


def m_assign(ex, st, a, d):
    src = get_map(ex, st, a[1], d)
    clone(ex, st, a[0], src)
    if '&&)' in d:
        ex.aset(st, a[1], MapV((), None, src.kind))
    return a[0]


def m_swap(ex, st, a, d):
    x, y = get_map(ex, st, a[0], d), get_map(ex, st, a[1], d)
    clone(ex, st, a[0], y)
    clone(ex, st, a[1], x)


def m_dtor(ex, st, a, d):
    return None


METHODS = {'find': m_find, 'count': m_count, 'contains': m_contains, 'operator[]': m_index, 'at': m_at, 'emplace': m_emplace,
           'try_emplace': m_emplace, 'insert': m_insert, 'insert_or_assign': m_insert_or_assign, 'erase': m_erase, 'begin': m_begin, 'cbegin': m_begin,
           'end': m_end, 'cend': m_end, 'size': m_size, 'empty': m_empty, 'clear': m_clear, 'swap': m_swap, 'operator=': m_assign,
           'map': m_ctor, 'unordered_map': m_ctor, 'unordered_set': m_ctor, 'set': m_ctor,
           '~map': m_dtor, '~unordered_map': m_dtor, '~unordered_set': m_dtor, '~set': m_dtor}


@M(r'std::(unordered_map|map|unordered_set|set)<.*>::(~?\w+|operator\[\]|operator=)\s*[<(]', key='std::map/unordered_map/unordered_set')
def container(ex, st, a, ins):
    from engine import INLINE
    name = ins.x['callee'][1] if ins.x['callee'][0] == 'fn' else None
    if name is None:
        raise ToolLimit('container method through a pointer')
    while name in ex.m.aliases:
        name = ex.m.aliases[name]
    d = ex.dem(name)
    head = re.search(r'std::(unordered_map|map|unordered_set|set)<', d)
    # only members of the container itself, not functions mentioning it
    pre = d[:head.start()]
    if pre and not re.search(r'(^| )$', pre):
        return INLINE
    if pre.count('<') != pre.count('>'):
        return INLINE
    meth = method_of(d)
    f = METHODS.get(meth)
    if f is None:
        if meth is None:
            return INLINE
        raise ToolLimit('container method %s' % meth)
    return f(ex, st, a, d)


# shared_ptr reference counts: owners are not tracked, nothing is destroyed by a release
M(r'^std::_Sp_counted_base<.*>::(_M_release|_M_add_ref_copy|_M_weak_release|_M_weak_add_ref|_M_release_last_use|_M_release_last_use_cold)\(\)',
  key='std::shared_ptr reference count (objects are never destroyed)')(L.nop())


@M(r'^std::chrono::_V2::(steady|system)_clock::now\(\)', key='std::chrono clocks')
def clock_now(ex, st, a, ins):
    v = ex.fresh('now', 64)
    st.assume(z3.And(v >= 0, v < bv(1 << 61)))
    return v
