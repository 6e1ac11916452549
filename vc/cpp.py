"""Contracts written as C++ functions over the real classes (probe/*.cpp): vc_assume = requires, vc_ensure = ensures."""
import itertools
import os
import re
import z3
from engine import index_of, Exc, Outcomes, PathEnd, Ptr, Raw, State, ToolLimit, as_int, bv, simp
from contract import Contract
import libmodels as L

PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe')


class CppContract(Contract):
    def __init__(self, fname, title, function, throws=False):
        self.func = '^' + re.escape(fname) + '$'
        self.fname = fname
        self.title = title
        self.name = title.split(': ')[0]
        self.function = function
        self.throws_ok = throws
        Contract.__init__(self)

    src = ''
    first = True          # callee contracts of the probe file come before the models of the library
    inits = ()
    invs = ()

    def prepare(self, ex):
        # callee contracts of other probe files are not in force here
        for c in ex.contracts.lst:
            if not isinstance(c, CppReplace) or c.src != self.src:
                ex.contracts.disabled.add(c)

    def locate(self, m, ex):
        return [self.fname] if self.fname in m.defs else []

    def setup(self, ex):
        st = State()
        fn = ex.m.func(self.fname)
        args = []
        for i, t in enumerate(fn.ptys):
            if t.kind == 'int':
                args.append(ex.fresh('arg%d' % i, t.width))
            elif t.kind == 'ptr':
                n = fn.deref[i]
                if not n:
                    raise ToolLimit('parameter %d of %s is not a reference' % (i, self.fname))
                r = ex.region(st, 'obj%d' % i, n, default='sym')
                args.append(Ptr(r.id, 0))
            else:
                raise ToolLimit('parameter type')
        for rx in self.inits:
            st = run_init(ex, st, rx)
        yield st, args, {}

    def post(self, ex, old, st, args, outcome, ctx):
        if outcome[0] == 'throw' and not self.throws_ok:
            return [('no exception leaves the function', z3.BoolVal(False))]
        return []

    def apply(self, ex, st, args, ins):
        raise ToolLimit('contract called')


class OwnName:
    """a regular expression that has to start in the name of the function itself, not in its template arguments"""

    def __init__(self, rx):
        self.rx = re.compile(rx)
        self.pattern = rx

    def search(self, d):
        m = self.rx.search(d)
        while m:
            if not level(d[:m.start()]) and level(d[:m.end()]) <= 1 and not nested(d[m.end():], level(d[:m.end()])):
                return m
            m = self.rx.search(d, m.start() + 1)
        return None


class CppReplace(Contract):
    """contract of a callee, written in C++: calls of the real function run this one instead"""
    verify = False

    def __init__(self, fname, title, rx, src):
        self.func = rx
        self.fname = fname
        self.title = self.name = title
        self.src = src
        self.rx = OwnName(rx)

    def applies(self, ex, st):
        # the contract function itself calls the real one
        return not (st.frames and st.frames[-1].fn.name == getattr(ex.root, 'fname', None))

    def apply(self, ex, st, args, ins):
        if self.fname not in ex.m.defs:
            raise ToolLimit('callee contract %s is missing' % self.title)
        ps = [a for a in args if isinstance(a, Ptr)]
        if ps and ins.x['callee'][0] == 'fn':
            lt = functor_type(ex.dem(ins.x['callee'][1]))
            if lt:
                ex.functors[(ps[-1].rid, repr(ps[-1].off))] = lt
        return Outcomes([(st, 'call', (self.fname, args, None))])


def functor_type(d):
    """the lambda type among the template arguments of a demangled function name"""
    for k, c in enumerate(d):
        if c == '<' and d[k - 1] != '<':
            part, depth = '', 0
            for c in d[k + 1:]:
                if depth == 0 and c in ',>':
                    p = re.sub(r'( const)?&*$', '', part.strip())
                    if re.search(r"(\$_\d+|lambda\(.*\)#\d+\}|'lambda\d*'\(.*\))$", p):
                        return p
                    part = ''
                    if c == '>':
                        break
                    continue
                depth += (c in '<(') - (c in '>)')
                part += c
    return None


def level(h):
    h = h.replace('operator<<', '').replace('operator>>', '').replace('->', '').replace('operator<', '').replace('operator()', '')
    return h.count('<') - h.count('>') + h.count('(') - h.count(')')


def nested(rest, depth):
    """rest: what follows in a demangled name; does it name something inside the function?"""
    rest = rest.replace('->', '').replace('operator>>', '').replace('operator<<', '').replace('operator()', 'operator')
    out = ''
    for c in rest:
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif depth == 0:
            out += c
    return '::' in out


def top_level(d):
    """d: text from the parameter list on; False when something nested in the function is named"""
    depth = 0
    for k, c in enumerate(d):
        depth += (c == '(') - (c == ')')
        if depth == 0:
            return '::' not in d[k:]
    return False


def invoke(ex, st, a, ins):
    f = a[0]
    if not isinstance(f, Ptr):
        raise ToolLimit('call of an unknown functor')
    lt = ex.functors.get((f.rid, repr(f.off)))
    if not lt:
        raise ToolLimit('functor of unknown type')
    hit = [n for n in ex.m.defs if ex.dem(n).startswith(lt + '::operator()(') and top_level(ex.dem(n)[len(lt) + 12:])]
    if len(hit) != 1:
        raise ToolLimit('%d call operators of %s' % (len(hit), lt))
    return Outcomes([(st, 'call', (hit[0], list(a), None))])


def run_init(ex, st, rx):
    """run the dynamic initialiser of a global variable of the code under contract"""
    r = re.compile(rx)
    gs = [g for g in ex.m.globals if r.search(ex.dem(g))]
    if not gs:
        raise ToolLimit('no global matches ' + rx)
    for n in sorted(ex.m.defs):
        if n.startswith('__cxx_global_var_init') and any(('@' + g) in ex.m.body_text(n) for g in gs):
            fin = [s for s, o in ex.run_function(st, n, []) if o[0] == 'ret']
            if len(fin) != 1:
                raise ToolLimit('initialiser of %s has %d outcomes' % (rx, len(fin)))
            st = fin[0]
    return st


def contracts(src, only=None):
    """contracts of one probe file: '// @contract <title> | <function>' before each contract function"""
    out = []
    txt = open(os.path.join(PROBE, src)).read()
    for m in re.finditer(r'// @contract (.*?) \| (.*?)(\s*\| throws)?\n\s*OBS\s+\w+\s+(\w+)\(', txt):
        title, fun, thr, name = m.groups()
        if only and not re.search(only, name):
            continue
        c = CppContract(name, title, fun, bool(thr))
        c.src = src
        c.invs = re.findall(r'// @invariant\b.*?\n\s*OBS\s+bool\s+(\w+)\(([^)]*)\)', txt)
        c.inits = re.findall(r'// @init (\S+)', txt)
        out.append(c)
    for m in re.finditer(r'// @replaces (.*?) \| (.*?)\n\s*OBS\s+[\w:<>, ]+?[\s*&]+(\w+)\(', txt):
        out.append(CppReplace(m.group(3), m.group(1), m.group(2), src))
    assert len(re.findall('// @replaces', txt)) == len([c for c in out if isinstance(c, CppReplace)]), src
    return out


M = L.base.model
M(r'^std::locale::~?locale\(')(L.nop())


def ghost_candidates(ex, st, fr, entry, entry_phi, modset, phis):
    """loop invariants tried for contracts written in C++: a memory cell keeps its value, or never shrinks"""
    if not isinstance(ex.root, CppContract):
        return []
    out = prefix_candidates(ex, st, fr, entry, entry_phi, modset, phis)
    for rid, o, n in sorted(modset, key=str):
        if rid not in entry.mem or not isinstance(n, int) or o is None:
            continue
        c = entry.mem[rid].cells.get(o)
        if c is None or c[0] != n or not z3.is_bv(c[1]):
            continue

        def get(s, rid=rid, o=o, n=n):
            c = s.mem[rid].cells.get(o) if rid in s.mem else None
            return c[1] if c is not None and c[0] == n and z3.is_bv(c[1]) else None

        def keep(ex2, s, f, get=get, v=c[1]):
            x = get(s)
            return z3.BoolVal(False) if x is None else x == v

        def grow(ex2, s, f, get=get, v=c[1]):
            x = get(s)
            return z3.BoolVal(False) if x is None else z3.UGE(x, v)
        out += [keep, grow]
        # a pointer points elsewhere exactly when this cell has changed
        for rid2, o2, n2 in sorted(modset, key=str) if ex.root.invs else ():
            q = entry.mem[rid2].cells.get(o2) if rid2 in entry.mem and n2 == 8 else None
            if q is not None and q[0] == 8 and isinstance(q[1], Ptr) and q[1].rid:
                def moved(ex2, s, f, get=get, v=c[1], rid2=rid2, o2=o2, r0=q[1].rid):
                    x = get(s)
                    y = s.mem[rid2].cells.get(o2) if rid2 in s.mem else None
                    if x is None or y is None or not isinstance(y[1], Ptr):
                        return z3.BoolVal(False)
                    return x == v if y[1].rid == r0 else x != v
                out.append(moved)
    return out


L.base.auto_candidates = ghost_candidates


class Groups:
    """n groups of elements lying one after the other: group i consists of the elements first(i) .. first(i + 1) - 1"""

    def __init__(self, ex, st, n):
        self.keep = []
        self.first = z3.Function('first_%d' % ex.nreg, z3.BitVecSort(64), z3.BitVecSort(64))
        self.n = n
        st.assume(z3.ULE(n, bv(1 << 32)))
        st.assume(self.first(bv(0)) == 0)
        st.assume(z3.ULE(self.first(n), bv(1 << 32)))
        self.flat = ex.region(st, 'elements', simp(8 * self.first(n)), arr=True)
        self.flat.ghost['stride'] = 8
        self.vec = ex.region(st, 'groups', simp(24 * n), arr=True)
        self.vec.ghost['stride'] = 24
        self.vec.ghost['elem'] = self.elem

        self.grp = z3.Function('group_%d' % ex.nreg, z3.BitVecSort(64), z3.BitVecSort(64))

    def fact(self, st, c):
        seen = st.ghost.get('group facts', frozenset())
        c = simp(c)
        if c.get_id() not in seen and not z3.is_true(c):
            st.assume(c)
            st.ghost = dict(st.ghost)
            st.ghost['group facts'] = seen | {c.get_id()}
            self.keep.append(c)

    def note(self, st, kind, t):
        l = st.ghost.get(kind, ())
        if any(t.eq(u) for u in l):
            return False
        st.ghost = dict(st.ghost)
        st.ghost[kind] = l + (t,)
        return True

    def group(self, ex, st, j):
        """the group that element j lies in"""
        w = self.grp(j)
        if self.note(st, 'group of', w):
            self.fact(st, z3.Implies(z3.ULT(j, self.first(self.n)), z3.And(z3.ULT(w, self.n), z3.ULE(self.first(w), j), z3.ULT(j, self.first(w + 1)))))
            for i in st.ghost.get('group used', ()):
                self.mono(st, w, i)
        return w

    def mono(self, st, w, i):
        for a in (w, w + 1):
            self.fact(st, z3.Implies(z3.And(z3.ULE(a, i), z3.ULE(i, self.n)), z3.ULE(self.first(a), self.first(i))))
            self.fact(st, z3.Implies(z3.And(z3.ULE(i, a), z3.ULE(a, self.n)), z3.ULE(self.first(i), self.first(a))))

    def at(self, st, i):
        i = simp(i)
        if any(i.eq(w) or i.eq(simp(w + 1)) for w in st.ghost.get('group of', ())):
            return self.first(i)
        if self.note(st, 'group used', i):
            self.fact(st, z3.Implies(z3.ULT(i, self.n), z3.And(z3.ULE(self.first(i), self.first(i + 1)), z3.ULE(self.first(i + 1), self.first(self.n)))))
            self.fact(st, z3.Implies(z3.ULE(i, self.n), z3.ULE(self.first(i), self.first(self.n))))
            for w in st.ghost.get('group of', ()):
                self.mono(st, w, i)
        return self.first(i)

    def elem(self, ex, st, p, ty):
        if ty.kind != 'ptr':
            raise ToolLimit('part of a vector object')
        i, r = index_of(p.off, 24)
        self.at(st, i)
        return Ptr(self.flat.id, simp(8 * self.at(st, i if r == 0 else simp(i + 1))))


def prefix_candidates(ex, st, fr, entry, entry_phi, modset, phis):
    G = st.ghost.get('groups')
    G = G[0] if G else None
    invs = [(n, a.count(',') + 1 if a.strip() else 0) for n, a in ex.root.invs if n in ex.m.defs]
    if not G and not invs:
        return []
    raw, out = {}, []

    def stride(v):
        return ex.regions[v.rid].ghost.get('stride') if isinstance(v, Ptr) and v.rid else None

    def plain(v):
        if isinstance(v, Ptr) and v.rid:
            sd = stride(v)
            return index_of(v.off, sd)[0] if sd else None
        if z3.is_bv(v) and v.size() in (1, 8, 32) and invs and not G:
            return z3.ZeroExt(64 - v.size(), v)
        if z3.is_bool(v) and invs and not G:
            return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return v if z3.is_bv(v) and v.size() == 64 else None

    def phi(i):
        g = lambda s, f: plain(f.loc[i.id])  # noqa
        raw[g] = lambda s, f: f.loc[i.id]
        return g

    def cell(rid, o, n=8):
        def get(s, f):
            c = s.mem[rid].cells.get(o) if rid in s.mem else None
            if n < 8:
                return z3.ZeroExt(64 - 8 * n, c[1]) if c is not None and c[0] == n and z3.is_bv(c[1]) and c[1].size() == 8 * n else None
            return plain(c[1]) if c is not None and c[0] == 8 else None
        raw[get] = lambda s, f: s.mem[rid].cells[o][1]
        return get
    gets = [g for g in map(phi, phis) if g(st, fr) is not None]
    nphi = len(gets)
    gets += [cell(rid, o) for rid, o, n in sorted(modset, key=str) if n == 8 and o is not None]
    if invs and not G:
        gets += [cell(rid, o, n) for rid, o, n in sorted(modset, key=str) if n in (1, 4) and o is not None]
    gets = [g for g in gets if g(st, fr) is not None]
    sd = {g: stride(r(st, fr)) for g, r in raw.items() if g in gets}
    R = [a for a in ex.root_args if z3.is_bv(a) and a.size() == 64 and not (G and a.eq(G.n))]

    def cand(f):
        def c(ex2, s, fr2):
            try:
                return f(s, fr2)
            except TypeError:
                return z3.BoolVal(False)
        out.append(c)
    # a pointer that a loop moves towards one that it leaves alone
    still = [v for k, v in fr.loc.items() if stride(v) and not any(k == j.id for j in phis)]
    mods = set((rid, o) for rid, o, n in modset)
    for rid in st.mem:
        if any(m[0] == rid for m in mods) or ex.regions[rid].name[:2] != 'G:':
            still += [c[1] for o, c in st.mem[rid].cells.items() if stride(c[1]) and (rid, o) not in mods and (rid, None) not in mods]
    for g in gets:
        p = raw[g](st, fr)
        lim = []
        for v in still if stride(p) else ():
            v = plain(v) if v.rid == p.rid else None
            if v is not None and not any(v.eq(u) for u in lim):
                lim.append(v)
        for v in lim:
            cand(lambda s, f, g=g, v=v: z3.ULE(g(s, f), v))
    for n, k in invs:
        for t in itertools.permutations(gets, k):
            def pred(s, f, n=n, t=t):
                v = [g(s, f) for g in t]
                if any(x is None for x in v):
                    return z3.BoolVal(False)
                r = ex.observe(s, n, v)
                return r if z3.is_bool(r) else r != 0
            cand(pred)
    # pointers count groups or elements, numbers may count either
    for k, a in enumerate(gets if G else ()):
        if sd[a] in (None, 24):
            cand(lambda s, f, a=a: z3.ULE(a(s, f), G.n))
            for r in R:
                cand(lambda s, f, a=a, r=r: z3.ULE(G.at(s, a(s, f)), r))
        else:
            cand(lambda s, f, a=a: z3.ULE(a(s, f), G.first(G.n)))
        for b in gets:
            if a is b:
                continue
            if b in gets[:k] and (sd[a] is None or sd[b] is None or sd[a] == sd[b]):
                cand(lambda s, f, a=a, b=b: a(s, f) == b(s, f))
            if sd[a] == 24 or sd[b] == 8 or (sd[b] is None and b not in gets[:nphi]):
                continue
            cand(lambda s, f, a=a, b=b: a(s, f) == G.at(s, b(s, f)))
            for r in R:
                cand(lambda s, f, a=a, b=b, r=r: a(s, f) == r - G.at(s, b(s, f)))
    return out


@L.base.model(r'^vc_groups$', key='~vc')
def _groups(ex, st, a, ins):
    G = Groups(ex, st, a[0])
    st.ghost = dict(st.ghost)
    st.ghost['groups'] = [G]
    return Ptr(G.vec.id, 0)


@L.base.model(r'^vc_first$', key='~vc')
def _first(ex, st, a, ins):
    return simp(st.ghost['groups'][0].at(st, a[0]))


@L.base.model(r'^vc_elements$', key='~vc')
def _elements(ex, st, a, ins):
    return Ptr(st.ghost['groups'][0].flat.id, 0)


@L.base.model(r'^vc_group$', key='~vc')
def _group(ex, st, a, ins):
    return st.ghost['groups'][0].group(ex, st, a[0])


PRED = z3.Function('vc_pred', z3.BitVecSort(64), z3.BoolSort())


@L.base.model(r'^vc_pred$', key='~vc')
def _pred(ex, st, a, ins):
    p = a[0]
    if not isinstance(p, Raw):
        raise ToolLimit('property of a known pointer')
    return PRED(simp(p.bv + p.off))


@L.base.model(r'^vc_objects$', key='~vc')
def _objects(ex, st, a, ins):
    # n pointers, the i-th to the i-th of n objects
    n, sz = a[0], as_int(a[1])
    o = ex.region(st, 'objects', simp(bv(sz) * n), arr=True)
    o.ghost['stride'] = sz
    r = ex.region(st, 'pointers', simp(8 * n), arr=True)
    r.ghost['stride'] = 8

    def elem(ex2, st2, p, ty):
        i, k = index_of(p.off, 8)
        if k or ty.kind != 'ptr':
            raise ToolLimit('part of a pointer')
        return Ptr(o.id, simp(bv(sz) * i))
    r.ghost['elem'] = elem
    st.ghost = dict(st.ghost)
    st.ghost['objects'] = o.id
    return Ptr(r.id, 0)


@L.base.model(r'^vc_objects_like$', key='~vc')
def _objects_like(ex, st, a, ins):
    p = _objects(ex, st, [a[0], a[2]], ins)
    o, sz, src = ex.regions[st.ghost['objects']], as_int(a[2]), a[1]

    def elem(ex2, st2, q, ty):
        i, k = index_of(q.off, sz)
        if not isinstance(k, int):
            raise ToolLimit('part of an object')
        return ex2.load(st2, Ptr(src.rid, src.off + k), ty)
    o.ghost['elem'] = elem
    return p


@L.base.model(r'^vc_any_pointer$', key='~vc')
def _anyptr(ex, st, a, ins):
    return Raw(ex.fresh('pointer', 64))


@L.base.model(r'^vc_object$', key='~vc')
def _object(ex, st, a, ins):
    o = st.ghost['objects']
    return Ptr(o, simp(bv(ex.regions[o].ghost['stride']) * a[0]))


@L.base.model(r'^vc_index$', key='~vc')
def _index(ex, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or not p.rid or not ex.regions[p.rid].ghost.get('stride'):
        return bv(-1)
    i, k = index_of(p.off, ex.regions[p.rid].ghost['stride'])
    return i if not k else bv(-1)


@L.base.model(r'^vc_alive$', key='~vc')
def _alive(ex, st, a, ins):
    p = a[0]
    return z3.BoolVal(isinstance(p, Ptr) and p.rid != 0 and st.mem[p.rid].alive)


@L.base.model(r'^vc_any_array$', key='~vc')
def _anyarray(ex, st, a, ins):
    sd = as_int(a[1])
    r = ex.region(st, 'any array', simp(bv(sd) * a[0]), arr=True)
    r.ghost['stride'] = sd
    return Ptr(r.id, 0)


def _any(w):
    def f(ex, st, a, ins):
        return ex.fresh('any', w)
    return f


M(r'^vc_any_bool$', key='~vc')(_any(1))
M(r'^vc_any_u8$', key='~vc')(_any(8))
M(r'^vc_any_u16$', key='~vc')(_any(16))
M(r'^vc_any_u32$', key='~vc')(_any(32))
M(r'^vc_any_u64$', key='~vc')(_any(64))


@M(r'^vc_any_string$', key='~vc')
def _anystr(ex, st, a, ins):
    L.setstr(ex, st, a[0], L.StrV.sym(ex, 'anystr', st))


M(r'^vc_invoke\w*$', key='~vc')(invoke)


@M(r'^vc_any_bytes$', key='~vc')
def _anybytes(ex, st, a, ins):
    r = ex.region(st, 'any bytes', a[0], arr=True)
    return Ptr(r.id, 0)


@M(r'^vc_room$', key='~vc')
def _room(ex, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or p.rid == 0:
        return bv(0)
    n = ex.regions[p.rid].size
    n = bv(n) if isinstance(n, int) else n
    o = bv(p.off) if isinstance(p.off, int) else p.off
    return simp(n - o)


@M(r'^vc_assume$', key='~vc')
def _assume(ex, st, a, ins):
    c = a[0] if z3.is_bool(a[0]) else a[0] != 0
    c = simp(c)
    if z3.is_false(c):
        raise PathEnd()
    st.assume(c)
    if not ex.feasible(st):
        raise PathEnd()
    return None


@M(r'^vc_within$', key='~vc')
def _within(ex, st, a, ins):
    c = a[0] if z3.is_bool(a[0]) else a[0] != 0
    if not ex.discover and not ex.must(st, c):
        raise ToolLimit('code of a kind the contract is not about')
    st.assume(c)
    return None


@M(r'^vc_ensure$', key='~vc')
def _ensure(ex, st, a, ins):
    c = a[0] if z3.is_bool(a[0]) else a[0] != 0
    lab = L.cstr(ex, st, a[1]).lit.decode()
    ex.oblige(st, '%s: %s' % (ex.root.short(), lab), c)
    return None


@M(r'^vc_note$', key='~vc')
def _note(ex, st, a, ins):
    st.events.append(L.cstr(ex, st, a[0]).lit.decode())
    return None
