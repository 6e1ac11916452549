"""Verification-condition generator over LLVM IR.

Path-wise symbolic execution of one function at a time.  Calls to functions
under contract use the contract; calls to other functions of the repository
are executed in place; calls into std::/boost:: go through the assumed library
contracts of libmodels.py or, for small header-only accessors, are executed in place.
Loops are cut at the header with an inductive invariant: everything the body may
write is havocked.  Every obligation is sent to an SMT solver."""
import os
import re
import subprocess
import time
import z3
import ack
import lia
from llvmir import Module

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
ARR = z3.ArraySort(BV64, BV8)


class ToolLimit(Exception):
    """The code left the fragment this generator understands (never a violation)."""


class PathEnd(Exception):
    pass


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def simp(e):
    return z3.simplify(e, bv_le2extract=False)


def as_int(e):
    """concrete value or None"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long()
    return None


class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off):
        self.rid = rid
        self.off = off if not isinstance(off, int) else bv(off)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rid, self.off)

    def add(self, n):
        if isinstance(n, int):
            n = bv(n)
        return Ptr(self.rid, simp(self.off + n))


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'Agg%r' % (self.vals,)


class Raw:
    """Pointer whose target is an opaque object: BV64 identity + byte offset."""
    __slots__ = ('bv', 'off')

    def __init__(self, b, off=0):
        self.bv = b
        self.off = off

    def __repr__(self):
        return 'Raw(%s,%s)' % (self.bv, self.off)


class FP:
    """floating value, opaque"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


NULL = Ptr(0, 0)
DEBUG = int(os.environ.get('VERIF_DEBUG', '0'))


def is_null(p):
    return isinstance(p, Ptr) and p.rid == 0 and as_int(p.off) == 0


class Exc:
    def __init__(self, tname, ptr, info=None):
        self.tname = tname
        self.ptr = ptr
        self.info = info

    def __repr__(self):
        return 'Exc(%s)' % self.tname


class RS:
    """mutable contents of one region"""
    __slots__ = ('cells', 'arr', 'absd', 'alive')

    def __init__(self):
        self.cells = {}
        self.arr = None
        self.absd = {}
        self.alive = True

    def copy(self):
        r = RS()
        r.cells = dict(self.cells)
        r.arr = self.arr
        r.absd = dict(self.absd)
        r.alive = self.alive
        return r


class Region:
    __slots__ = ('id', 'name', 'size', 'default', 'base', 'kind', 'tyname', 'ro', 'vt', 'ghost')


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'loc', 'inst', 'cuts', 'loopent', 'caught', 'onret', 'unrolls')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.loc = dict(self.loc)
        f.inst = self.inst
        f.cuts = dict(self.cuts)
        f.loopent = self.loopent
        f.caught = self.caught
        f.onret = self.onret
        f.unrolls = dict(self.unrolls)
        return f


class State:
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.events = []
        self.ghost = {}
        self.writes = None
        self.trail = []

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.frames = [f.copy() for f in self.frames]
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.writes = None if self.writes is None else list(self.writes)
        s.trail = list(self.trail)
        return s

    def snap(self):
        """snapshot for old() - shares everything"""
        return self.fork()

    def rs(self, rid):
        return self.mem[rid]

    def wr(self, rid):
        if rid not in self.owned:
            self.mem[rid] = self.mem[rid].copy()
            self.owned.add(rid)
        return self.mem[rid]

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        if not z3.is_true(c):
            self.pc.append(c)


class Obligation:
    __slots__ = ('label', 'status', 'time', 'backend', 'model', 'where', 'info')

    def __init__(self, label, status, t, backend, model=None, where='', info=None):
        self.label, self.status, self.time, self.backend = label, status, t, backend
        self.model, self.where, self.info = model, where, info


def _has_lambda(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


WHERE = int(os.environ.get('VERIF_WHERE', '3'))
_dem_cache = {}


def norm_dem(s):
    s = s.replace('[abi:cxx11]', '')
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    s = s.replace('boost::log::v2s_mt_posix', 'boost::log').replace('boost::log::v2_mt_posix', 'boost::log')
    s = s.replace('std::vector<unsigned char, std::allocator<unsigned char> >', 'VB')
    s = s.replace('std::vector<Bloomberg::amqpprox::FieldValue, std::allocator<Bloomberg::amqpprox::FieldValue> >', 'VFV')
    s = s.replace('boost::variant<std::string, unsigned long, long, bool, VB, VFV, std::shared_ptr<Bloomberg::amqpprox::FieldTable> >', 'FVariant')
    return s


def demangle_all(names):
    names = [n for n in names if n not in _dem_cache]
    if not names:
        return
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    for n, d in zip(names, out):
        _dem_cache[n] = norm_dem(d)


class Executor:
    def __init__(self, module, lib, contracts, solver_timeout=20000):
        self.m = module
        demangle_all(list(module.fnrefs))
        self.lib = lib
        self.contracts = contracts
        self.regions = {}
        self.nreg = 0
        self.nsym = 0
        self.obls = []
        self.covers = {}
        self.work = []
        self.finished = []
        self.timeout = solver_timeout
        self.root = None
        self.used_models = {}
        self.used_contracts = {}
        self.inlined = {}
        self.steps = 0
        self.max_steps = 400000
        self.max_paths = 4000
        self.max_inline = 60
        self.globals_r = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.model_cache = {}
        self.deadline = None
        self.functors = {}
        self.discover = 0
        self.loopspecs = {}
        self.assumptions = set()
        self.noinline = None
        self.keep_undef_check = True
        self.global_init_hook = None
        self.vcalls = {}
        self.feas_cache = {}
        self.quick_ms = 200
        self.lam_cache = {}
        self.models = []          # recent satisfying models, to avoid solver calls
        self.unsat_memo = {}

    # ---- symbols / regions -------------------------------------------------
    def fresh(self, name, w=64):
        self.nsym += 1
        n = '%s!%d' % (name, self.nsym)
        if w == 1 or w == 'bool':
            return z3.Bool(n)
        if w == 'arr':
            return z3.Const(n, ARR)
        return z3.BitVec(n, w)

    def region(self, st, name, size, default='undef', arr=False, kind='heap', tyname=None):
        self.nreg += 1
        r = Region()
        r.id = self.nreg
        r.name = name
        r.size = size
        r.default = default
        r.kind = kind
        r.tyname = tyname
        r.ro = False
        r.vt = None
        r.ghost = {}
        r.base = z3.BitVec('addr_%s_%d' % (name, r.id), 64)
        self.regions[r.id] = r
        rs = RS()
        if arr is True:
            rs.arr = z3.Const('mem_%s_%d' % (name, r.id), ARR)
        elif arr is not False and arr is not None:
            rs.arr = arr
        st.mem[r.id] = rs
        st.owned.add(r.id)
        return r

    # ---- solver -------------------------------------------------------------
    def check(self, pc, extra, timeout=None):
        """-> 'unsat' | 'sat' | 'unknown', model"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for c in pc:
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        dt = time.time() - t0
        self.solver_time += dt
        self.nqueries += 1
        if r == z3.unsat:
            return 'unsat', None, dt
        if r == z3.sat:
            return 'sat', s.model(), dt
        return 'unknown', s, dt

    def has_lambda(self, e):
        i = e.get_id()
        r = self.lam_cache.get(i)
        if r is None:
            r = (_has_lambda(e), e)
            self.lam_cache[i] = r
        return r[0]

    def prove(self, pc, c, timeout=None):
        """check pc and not c; tries cheap subsets of pc first (sound for unsat)"""
        g = z3.Not(c)
        t0 = time.time()
        T = min(timeout or self.timeout, 3000)
        be = None
        if not self.has_lambda(g) and not any(self.has_lambda(x) for x in pc):
            r, m, dt = self.check(pc, [g], timeout=self.quick_ms)
            if r != 'unknown':
                self.last_be = 'z3'
                return r, m, dt
        try:
            fs, cons, keep = ack.reduce(pc, c)
            if ack.prove_bv(fs + cons, T // 3):
                be = 'z3 (QF_BV)'
            elif lia.prove(fs, T // 3, opaque=True) or (cons and lia.prove(fs, T // 3)) or lia.prove(fs + cons, T):
                be = 'z3 (QF_LIA)'
        except z3.Z3Exception:
            pass
        self.last_be = be or 'z3'
        if be:
            dt = time.time() - t0
            self.solver_time += dt
            self.nqueries += 1
            return 'unsat', None, dt
        return self.check(pc, [g], timeout)

    def feasible(self, st, c=None):
        ex = []
        if c is not None:
            c = simp(c)
            if z3.is_false(c):
                return False
            if z3.is_true(c) and st.ghost.get('_feas') == len(st.pc):
                return True
            ex = [c]
        conj = st.pc + ex
        for mi, (m, known) in enumerate(self.models):
            for x in reversed(conj):
                k = known.get(x.get_id())
                if k is None:
                    try:
                        k = (z3.is_true(m.eval(x, model_completion=True)), x)
                    except z3.Z3Exception:
                        k = (False, x)
                    known[x.get_id()] = k
                if not k[0]:
                    break
            else:
                if mi > 3:
                    self.models.insert(0, self.models.pop(mi))
                return True
        key = frozenset(x.get_id() for x in conj)
        if key in self.unsat_memo:
            return False
        r, m, dt = self.check(st.pc, ex, timeout=4000)
        if DEBUG and dt > 1:
            print('slow feasible', r, round(dt, 1), len(st.pc), str(ex)[:300].replace('\n', ' '), flush=True)
        if r == 'sat':
            self.models.insert(0, (m, {}))
            del self.models[24:]
        elif r == 'unsat':
            self.unsat_memo[key] = conj
        return r != 'unsat'

    def falsified(self, st, conds):
        """which of the conditions does some state satisfying the path condition break?  entries found to hold become true"""
        out = []
        sol = None
        while True:
            todo = [i for i in conds if i not in out and not z3.is_true(conds[i])]
            if not todo:
                return out
            t0 = time.time()
            if sol is None:
                sol = z3.Solver()
                sol.set('timeout', self.quick_ms)
                sol.add(*st.pc)
            sol.push()
            sol.add(z3.Not(z3.And(*[conds[i] for i in todo])))
            r = sol.check()
            m = sol.model() if r == z3.sat else None
            sol.pop()
            self.solver_time += time.time() - t0
            self.nqueries += 1
            if r == z3.unsat:
                for i in todo:
                    conds[i] = z3.BoolVal(True)
                return out
            hit = [i for i in todo if m is not None and z3.is_false(m.eval(conds[i], model_completion=True))]
            if not hit:
                return out
            out += hit

    def must(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, _, dt = self.prove(st.pc, c, timeout=4000)
        if DEBUG and dt > 1:
            print('slow must', r, round(dt, 1), len(st.pc), str(c)[:300].replace('\n', ' '), flush=True)
        return r == 'unsat'

    def oblige(self, st, label, cond, info=None):
        """Generate and discharge one obligation; afterwards it is assumed."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if self.discover:
            st.assume(cond)
            return True
        where = self.where(st)
        c = simp(cond)
        if z3.is_true(c):
            self.obls.append(Obligation(label, 'discharged', 0.0, 'simplifier', where=where))
            return True
        r, m, dt = self.prove(st.pc, c)
        if r == 'unsat':
            self.obls.append(Obligation(label, 'discharged', dt, self.last_be, where=where))
            return True
        if r == 'unknown':
            r2, dt2, be = self.second_opinion(m)
            if r2 == 'unsat':
                self.obls.append(Obligation(label, 'discharged', dt + dt2, be, where=where))
                return True
            if r2 == 'sat':
                self.obls.append(Obligation(label, 'failed', dt + dt2, be, model=None, where=where, info=info))
                st.assume(cond)
                return False
            self.obls.append(Obligation(label, 'unknown', dt + dt2, 'z3+' + be, where=where, info=info))
            st.assume(cond)
            return False
        self.obls.append(Obligation(label, 'failed', dt, 'z3', model=m, where=where, info=info))
        st.assume(cond)
        if not self.feasible(st):
            raise PathEnd()
        return False

    def second_opinion(self, solver):
        t0 = time.time()
        try:
            txt = '(set-logic ALL)\n' + solver.to_smt2()
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % self.timeout], input=txt,
                               capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            if o in ('sat', 'unsat'):
                return o, time.time() - t0, 'cvc5'
        except Exception:
            pass
        return 'unknown', time.time() - t0, 'cvc5'

    def where(self, st):
        out = []
        for f in st.frames[-WHERE:]:
            out.append(self.dem(f.fn.name).split('(')[0][-60:])
        return ' > '.join(out)

    def dem(self, n):
        d = _dem_cache.get(n)
        if d is None:
            demangle_all([n])
            d = _dem_cache.get(n, n)
        return d

    # ---- memory ---------------------------------------------------------------
    def chk_alive(self, st, p, what):
        if p.rid == 0:
            self.oblige(st, 'no null dereference (%s)' % what, False)
            raise PathEnd()
        rs = st.mem.get(p.rid)
        if rs is None and p.rid in getattr(self, 'globals_init', {}):
            # reached through another global's initialiser
            rs = st.mem[p.rid] = self.globals_init[p.rid].copy()
            st.owned.add(p.rid)
        if rs is None:
            raise ToolLimit('dangling region %s %s (%s)' % (p.rid, self.regions[p.rid].name, what))
        if not rs.alive:
            self.oblige(st, 'no access to freed or expired object (%s)' % self.regions[p.rid].name, False)
            raise PathEnd()

    def conc_off(self, st, off):
        o = as_int(off)
        if o is not None:
            return o
        # unique under path condition?
        r, m, _ = self.check(st.pc, [], timeout=4000)
        if r == 'sat':
            v = m.eval(off, model_completion=True)
            if z3.is_bv_value(v) and self.must(st, off == v):
                return v.as_long()
        return None

    def bounds(self, st, p, n, what):
        """n: int or BV64 -- [off, off+n) within region"""
        reg = self.regions[p.rid]
        if isinstance(n, int):
            n = bv(n)
        sz = reg.size if not isinstance(reg.size, int) else bv(reg.size)
        self.oblige(st, 'in-bounds %s of %s' % (what, reg.kind if reg.kind != 'heap' else reg.name),
                    z3.And(z3.ULE(n, sz), z3.ULE(p.off, sz - n)), info={'region': reg.name})

    def load_bytes(self, st, p, n):
        """list of n byte-values (BV8); p in-bounds already"""
        rs = st.mem[p.rid]
        if rs.arr is not None:
            return [simp(z3.Select(rs.arr, p.off + i)) for i in range(n)]
        o = self.conc_off(st, p.off)
        if o is None:
            self.to_arr(st, p.rid)
            rs = st.mem[p.rid]
            return [simp(z3.Select(rs.arr, p.off + i)) for i in range(n)]
        out = []
        for i in range(n):
            out.append(self.cell_byte(st, p.rid, o + i))
        return out

    def cell_byte(self, st, rid, o):
        rs = st.mem[rid]
        reg = self.regions[rid]
        for co, (cs, v) in rs.cells.items():
            if co <= o < co + cs:
                k = o - co
                if not z3.is_expr(v):
                    raise ToolLimit('byte access to pointer cell in %s' % reg.name)
                if z3.is_bool(v):
                    v = z3.If(v, bv(1, 8), bv(0, 8))
                return simp(z3.Extract(8 * k + 7, 8 * k, v))
        if reg.default == 'sym':
            v = z3.BitVec('%s.%d@%d_1' % (reg.name, rid, o), 8)
        elif reg.default == 'zero':
            v = bv(0, 8)
        else:
            v = self.fresh('undef', 8)
        st.wr(rid).cells[o] = (1, v)
        return v

    def to_arr(self, st, rid):
        rs = st.wr(rid)
        reg = self.regions[rid]
        a = z3.Const('mem_%s_%d' % (reg.name, rid), ARR)
        for co, (cs, v) in sorted(rs.cells.items()):
            if not z3.is_expr(v):
                raise ToolLimit('symbolic offset into pointer-holding region %s' % reg.name)
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            for k in range(cs):
                a = z3.Store(a, bv(co + k), z3.Extract(8 * k + 7, 8 * k, v))
        rs.arr = a
        rs.cells = {}

    def load(self, st, p, ty):
        if isinstance(p, Raw):
            return self.raw_load(st, p, ty)
        if not isinstance(p, Ptr):
            raise ToolLimit('load through %r' % (p,))
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct':
                return Agg([self.load(st, p.add(o), e) for o, e in zip(ty.offsets, ty.elems)])
            return Agg([self.load(st, p.add(i * ty.elems[0].size), ty.elems[0]) for i in range(ty.n)])
        n = ty.size
        self.chk_alive(st, p, 'load')
        self.bounds(st, p, n, 'read')
        rs = st.mem[p.rid]
        reg = self.regions[p.rid]
        if rs.arr is not None and reg.ghost.get('elem'):
            return reg.ghost['elem'](self, st, p, ty)
        if rs.arr is None:
            o = self.conc_off(st, p.off)
            if o is None and reg.ghost.get('elem'):
                return reg.ghost['elem'](self, st, p, ty)
            if o is not None:
                c = rs.cells.get(o)
                if c is not None and c[0] == n:
                    return self.coerce(c[1], ty)
                for ao, (av) in rs.absd.items():
                    w = getattr(av, 'size', 8)
                    if ao <= o < ao + w:
                        raise ToolLimit('raw read of abstract %s at %s+%d in %s' % (type(av).__name__, reg.name, o, self.where(st)))
                ov = any(co < o + n and o < co + cs for co, (cs, _) in rs.cells.items())
                if not ov:
                    if reg.default == 'sym':
                        lz = reg.ghost.get('lazy')
                        v = lz(self, st, o, ty) if lz else None
                        if v is None:
                            if ty.kind == 'ptr':
                                v = Raw(z3.BitVec('%s.%d@%d_p' % (reg.name, p.rid, o), 64))
                            elif ty.kind in ('float', 'double'):
                                v = FP(z3.BitVec('%s.%d@%d_f' % (reg.name, p.rid, o), 8 * n))
                            else:
                                v = z3.BitVec('%s.%d@%d_%d' % (reg.name, p.rid, o, n), 8 * n)
                    elif reg.default == 'zero':
                        v = bv(0, 8 * n) if ty.kind != 'ptr' else NULL
                    else:
                        if ty.kind == 'ptr':
                            v = Raw(self.fresh('undef', 64))
                        elif ty.kind in ('float', 'double'):
                            v = FP(self.fresh('undef', 8 * n))
                        else:
                            v = self.fresh('undef', 8 * n)
                    st.wr(p.rid).cells[o] = (n, v)
                    return self.coerce(v, ty)
        bs = self.load_bytes(st, p, n)
        v = simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if ty.kind == 'int':
            if ty.width == 1:
                if z3.is_bool(v):
                    return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, Ptr):
                return self.ptr2int(v)
            if isinstance(v, Raw):
                return simp(v.bv + v.off)
            if isinstance(v, FP):
                return v.e
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            if not z3.is_expr(v):
                raise ToolLimit('integer load of %r' % (v,))
            if v.size() > ty.width:
                return simp(z3.Extract(ty.width - 1, 0, v))
            return v
        if ty.kind == 'ptr':
            if z3.is_expr(v):
                if as_int(v) == 0:
                    return NULL
                return Raw(v)
            return v
        if ty.kind in ('float', 'double'):
            return v if isinstance(v, FP) else FP(v)
        if ty.kind == 'vector':
            return v
        raise ToolLimit('load of type %s' % ty)

    def ptr2int(self, p):
        if p.rid == 0:
            return p.off
        return simp(self.regions[p.rid].base + p.off)

    def store(self, st, p, v, ty):
        if isinstance(v, Agg):
            if ty.kind == 'struct':
                for o, e, x in zip(ty.offsets, ty.elems, v.vals):
                    self.store(st, p.add(o), x, e)
                return
            for i, x in enumerate(v.vals):
                self.store(st, p.add(i * ty.elems[0].size), x, ty.elems[0])
            return
        if isinstance(p, Raw):
            return self.raw_store(st, p, v, ty)
        if not isinstance(p, Ptr):
            raise ToolLimit('store through %r' % (p,))
        n = ty.size
        self.chk_alive(st, p, 'store')
        self.bounds(st, p, n, 'write')
        reg = self.regions[p.rid]
        if reg.ro:
            self.oblige(st, 'no write to read-only data (%s)' % reg.name, False)
            raise PathEnd()
        rs = st.wr(p.rid)
        if st.writes is not None:
            st.writes.append((p.rid, as_int(p.off), n))
        if rs.arr is None:
            o = self.conc_off(st, p.off)
            if o is None:
                self.to_arr(st, p.rid)
                rs = st.wr(p.rid)
        if rs.arr is not None:
            if not z3.is_expr(v):
                if isinstance(v, Ptr):
                    v = self.ptr2int(v)
                elif isinstance(v, Raw):
                    v = v.bv + v.off
                else:
                    raise ToolLimit('store of %r into byte region' % (v,))
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            a = rs.arr
            for k in range(n):
                a = z3.Store(a, simp(p.off + k), simp(z3.Extract(8 * k + 7, 8 * k, v)))
            rs.arr = a
            return
        self.clear_range(st, p.rid, o, n)
        if z3.is_expr(v) and not z3.is_bool(v) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        st.wr(p.rid).cells[o] = (n, v)

    def clear_range(self, st, rid, o, n):
        rs = st.wr(rid)
        for co in list(rs.cells):
            cs, v = rs.cells[co]
            if co < o + n and o < co + cs:
                del rs.cells[co]
                if co < o or co + cs > o + n:
                    if z3.is_expr(v):
                        if z3.is_bool(v):
                            v = z3.If(v, bv(1, 8), bv(0, 8))
                        for k in range(cs):
                            if not (o <= co + k < o + n):
                                rs.cells[co + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, v)))
        for ao in list(rs.absd):
            if o <= ao < o + n:
                del rs.absd[ao]

    # opaque-pointer heap: one array per (offset, size)
    def raw_load(self, st, p, ty):
        if ty.kind not in ('int', 'ptr'):
            raise ToolLimit('raw load of %s at %s' % (ty, self.where(st)))
        if p.bv.decl().name().startswith('undef'):
            self.oblige(st, 'no dereference of an uninitialised pointer', False)
            raise PathEnd()
        hook = st.ghost.get('raw_load')
        if hook:
            v = hook(self, st, p, ty)
            if v is not None:
                return v
        raise ToolLimit('load through opaque pointer %s at %s' % (p, self.where(st)))

    def raw_store(self, st, p, v, ty):
        hook = st.ghost.get('raw_store')
        if hook and hook(self, st, p, v, ty):
            return
        raise ToolLimit('store through opaque pointer %s at %s' % (p, self.where(st)))

    def copy_mem(self, st, d, s, n):
        """memcpy/memmove of n bytes (int or BV64)"""
        if isinstance(n, int):
            ni = n
        else:
            ni = as_int(n)
        if ni == 0:
            return
        if ni is None:
            # length zero permits any pointers
            if (isinstance(d, Ptr) and d.rid == 0) or (isinstance(s, Ptr) and s.rid == 0) or isinstance(s, Raw) or isinstance(d, Raw):
                self.oblige(st, 'memcpy through null only with zero length', n == 0)
                return
        for q, nm in ((d, 'destination'), (s, 'source')):
            if not isinstance(q, Ptr):
                raise ToolLimit('memcpy %s %r at %s' % (nm, q, self.where(st)))
            self.chk_alive(st, q, 'memcpy')
        self.bounds(st, s, n, 'read')
        self.bounds(st, d, n, 'write')
        if self.regions[d.rid].ro:
            self.oblige(st, 'no write to read-only data', False)
            raise PathEnd()
        if st.writes is not None:
            st.writes.append((d.rid, as_int(d.off), ni))
        srs, drs = st.mem[s.rid], st.mem[d.rid]
        if ni is not None and srs.arr is None and drs.arr is None:
            so, do = self.conc_off(st, s.off), self.conc_off(st, d.off)
            if so is not None and do is not None:
                cells = []
                absd = [(ao, av) for ao, av in srs.absd.items() if so <= ao < so + ni]
                covered = set()
                for co, (cs, v) in list(srs.cells.items()):
                    if co >= so and co + cs <= so + ni:
                        cells.append((co - so, cs, v))
                        covered.update(range(co - so, co - so + cs))
                    elif co < so + ni and so < co + cs:
                        for b in range(max(co, so), min(co + cs, so + ni)):
                            cells.append((b - so, 1, self.cell_byte(st, s.rid, b)))
                            covered.add(b - so)
                if len(covered) < ni and self.regions[s.rid].default == 'sym':
                    # lazily initialise by 8-byte then byte granularity
                    b = 0
                    while b < ni:
                        if b in covered:
                            b += 1
                            continue
                        if (so + b) % 8 == 0 and b + 8 <= ni and not any(x in covered for x in range(b, b + 8)):
                            lz = self.regions[s.rid].ghost.get('lazy')
                            v = z3.BitVec('%s.%d@%d_8' % (self.regions[s.rid].name, s.rid, so + b), 64)
                            st.wr(s.rid).cells[so + b] = (8, v)
                            cells.append((b, 8, v))
                            b += 8
                        else:
                            cells.append((b, 1, self.cell_byte(st, s.rid, so + b)))
                            b += 1
                elif len(covered) < ni and self.regions[s.rid].default == 'zero':
                    for b in range(ni):
                        if b not in covered:
                            cells.append((b, 1, bv(0, 8)))
                self.clear_range(st, d.rid, do, ni)
                w = st.wr(d.rid)
                for o, cs, v in cells:
                    w.cells[do + o] = (cs, v)
                for ao, av in absd:
                    w.absd[ao - so + do] = av
                return
        if ni is not None and ni <= 64:
            bs = self.load_bytes(st, s, ni)
            drs = st.mem[d.rid]
            if drs.arr is None:
                do = self.conc_off(st, d.off)
                if do is None:
                    self.to_arr(st, d.rid)
            drs = st.wr(d.rid)
            if drs.arr is not None:
                a = drs.arr
                for k in range(ni):
                    a = z3.Store(a, simp(d.off + k), bs[k])
                drs.arr = a
            else:
                self.clear_range(st, d.rid, do, ni)
                drs = st.wr(d.rid)
                if ni in (1, 2, 4, 8):
                    drs.cells[do] = (ni, simp(z3.Concat(*reversed(bs))) if ni > 1 else bs[0])
                else:
                    for k in range(ni):
                        drs.cells[do + k] = (1, bs[k])
            return
        if srs.arr is None:
            self.to_arr(st, s.rid)
        if st.mem[d.rid].arr is None:
            self.to_arr(st, d.rid)
        nn = n if not isinstance(n, int) else bv(n)
        k = z3.BitVec('k!cp', 64)
        sa, da = st.mem[s.rid].arr, st.mem[d.rid].arr
        st.wr(d.rid).arr = z3.Lambda([k], z3.If(z3.ULT(k - d.off, nn), z3.Select(sa, k - d.off + s.off), z3.Select(da, k)))

    def set_mem(self, st, d, byte, n):
        ni = n if isinstance(n, int) else as_int(n)
        if ni == 0:
            return
        if not isinstance(d, Ptr):
            raise ToolLimit('memset %r' % (d,))
        self.chk_alive(st, d, 'memset')
        self.bounds(st, d, n, 'write')
        if st.writes is not None:
            st.writes.append((d.rid, as_int(d.off), ni))
        rs = st.wr(d.rid)
        if rs.arr is None and ni is not None:
            o = self.conc_off(st, d.off)
            if o is not None:
                self.clear_range(st, d.rid, o, ni)
                w = st.wr(d.rid)
                b = 0
                while b < ni:
                    if (o + b) % 8 == 0 and ni - b >= 8:
                        w.cells[o + b] = (8, simp(z3.Concat(*[byte] * 8)))
                        b += 8
                    else:
                        w.cells[o + b] = (1, byte)
                        b += 1
                return
        if rs.arr is None:
            self.to_arr(st, d.rid)
        nn = n if not isinstance(n, int) else bv(n)
        k = z3.BitVec('k!ms', 64)
        da = st.mem[d.rid].arr
        st.wr(d.rid).arr = z3.Lambda([k], z3.If(z3.ULT(k - d.off, nn), byte, z3.Select(da, k)))

    # abstract values -----------------------------------------------------------
    def aget(self, st, p, default=None):
        if not isinstance(p, Ptr):
            raise ToolLimit('abstract object behind %r at %s' % (p, self.where(st)))
        self.chk_alive(st, p, 'object access')
        o = self.conc_off(st, p.off)
        if o is None:
            h = self.regions[p.rid].ghost.get('aelem')
            if h:
                return h(self, st, p)
            raise ToolLimit('abstract object at symbolic offset at %s' % self.where(st))
        v = st.mem[p.rid].absd.get(o)
        if v is None:
            h = self.regions[p.rid].ghost.get('alazy')
            if h:
                v = h(self, st, o)
                if v is not None:
                    st.wr(p.rid).absd[o] = v
                    return v
            if default is not None:
                v = default(self, st, p)
                if v is not None:
                    st.wr(p.rid).absd[o] = v
        return v

    def aset(self, st, p, v):
        if not isinstance(p, Ptr):
            raise ToolLimit('abstract object behind %r at %s' % (p, self.where(st)))
        self.chk_alive(st, p, 'object write')
        o = self.conc_off(st, p.off)
        if o is None:
            raise ToolLimit('abstract store at symbolic offset')
        if st.writes is not None:
            st.writes.append((p.rid, o, 'abs'))
        w = st.wr(p.rid)
        w.absd[o] = v

    # ---- globals -----------------------------------------------------------------
    def gptr(self, st, name):
        r = self.globals_r.get(name)
        if r is not None and r in st.mem:
            return Ptr(r, 0)
        if r is None:
            t, init = self.m.global_init(name)
            ro = self.m.global_is_const(name)
            d = 'sym'
            size = t.size if t is not None and t.size is not None else 1 << 20
            reg = self.region(st, 'G:' + name[:60], size, default=d, kind='global')
            reg.vt = name
            self.globals_r[name] = reg.id
            rs0 = RS()
            if init is not None and ro:
                self._init(st, reg.id, 0, t, init)
                reg.ro = True
                rs0 = st.mem[reg.id]
            self.globals_init = getattr(self, 'globals_init', {})
            self.globals_init[reg.id] = rs0.copy()
            if rs0 is not st.mem[reg.id]:
                st.mem[reg.id] = rs0.copy()
            return Ptr(reg.id, 0)
        st.mem[r] = self.globals_init[r].copy()
        st.owned.add(r)
        return Ptr(r, 0)

    def _init(self, st, rid, o, t, c):
        rs = st.wr(rid)
        k = c[0]
        if k == 'str':
            for i, b in enumerate(c[1]):
                rs.cells[o + i] = (1, bv(b, 8))
        elif k == 'int':
            w = max(8, (c[1] + 7) // 8 * 8)
            rs.cells[o] = (w // 8, bv(c[2], w))
        elif k == 'null':
            rs.cells[o] = (8, NULL)
        elif k == 'zero':
            sz = c[1].size
            if sz <= 4096:
                b = 0
                while b < sz:
                    if (o + b) % 8 == 0 and sz - b >= 8:
                        rs.cells[o + b] = (8, bv(0, 64))
                        b += 8
                    else:
                        rs.cells[o + b] = (1, bv(0, 8))
                        b += 1
        elif k == 'agg':
            ty = c[1]
            for i, e in enumerate(c[2]):
                if ty.kind == 'struct':
                    self._init(st, rid, o + ty.offsets[i], ty.elems[i], e)
                else:
                    self._init(st, rid, o + i * ty.elems[0].size, ty.elems[0], e)
        elif k in ('fn', 'global', 'cexpr'):
            try:
                v = self.cval(st, c)
            except ToolLimit:
                return
            st.wr(rid).cells[o] = (8, v)

    # ---- values ---------------------------------------------------------------------
    def cval(self, st, o):
        k = o[0]
        if k == 'int':
            if o[1] == 1:
                return z3.BoolVal(bool(o[2]))
            return bv(o[2], o[1])
        if k == 'null':
            return NULL
        if k == 'fn':
            return Fn(o[1])
        if k == 'global':
            return self.gptr(st, o[1])
        if k == 'undef':
            return self.undef(o[1])
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            return Agg([self.cval(st, x) for x in o[2]])
        if k == 'fp':
            return FP(z3.BitVec('fpconst_' + str(o[2]), o[1].size * 8))
        if k == 'cexpr':
            op = o[1]
            ops = o[3]
            if op == 'getelementptr':
                base = self.cval(st, ops[0])
                return self.gep(st, base, o[4], [self.cval(st, x) for x in ops[1:]])
            if op in ('bitcast', 'addrspacecast'):
                return self.cval(st, ops[0])
            if op == 'ptrtoint':
                v = self.cval(st, ops[0])
                if isinstance(v, Ptr):
                    return self.ptr2int(v)
                if isinstance(v, Fn):
                    return z3.BitVec('fnaddr_' + v.name, 64)
            if op == 'inttoptr':
                v = self.cval(st, ops[0])
                if as_int(v) == 0:
                    return NULL
                return Raw(v)
            if op in ('add', 'sub'):
                a, b = self.cval(st, ops[0]), self.cval(st, ops[1])
                return simp(a + b if op == 'add' else a - b)
            if op == 'trunc':
                return simp(z3.Extract(o[2].width - 1, 0, self.cval(st, ops[0])))
        raise ToolLimit('constant %s' % (o[:2],))

    def undef(self, ty):
        if ty.kind == 'int':
            return self.fresh('undef', ty.width if ty.width > 1 else 1)
        if ty.kind == 'ptr':
            return Raw(self.fresh('undef', 64))
        if ty.kind == 'struct':
            return Agg([self.undef(e) for e in ty.elems])
        if ty.kind == 'array':
            return Agg([self.undef(ty.elems[0]) for _ in range(ty.n)])
        if ty.kind in ('float', 'double'):
            return FP(self.fresh('undef', ty.size * 8))
        raise ToolLimit('undef %s' % ty)

    def zero(self, ty):
        if ty.kind == 'int':
            return bv(0, ty.width) if ty.width > 1 else z3.BoolVal(False)
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return Agg([self.zero(e) for e in ty.elems])
        if ty.kind == 'array':
            return Agg([self.zero(ty.elems[0]) for _ in range(ty.n)])
        raise ToolLimit('zero %s' % ty)

    def val(self, st, fr, o):
        if o[0] == 'v':
            return fr.loc[o[1]]
        return self.cval(st, o)

    def gep(self, st, base, ty, idx):
        off = bv(0)
        i0 = idx[0]
        off = off + self._sx(i0) * bv(ty.size if ty.size is not None else 1)
        t = ty
        for ix in idx[1:]:
            if t.kind == 'struct':
                k = as_int(ix)
                off = off + bv(t.offsets[k])
                t = t.elems[k]
            else:
                t = t.elems[0]
                off = off + self._sx(ix) * bv(t.size)
        off = simp(off)
        if isinstance(base, Ptr):
            return base.add(off)
        if isinstance(base, Raw):
            k = as_int(off)
            if k is None:
                return Raw(simp(base.bv + base.off + off), 0)
            if k >= 1 << 63:
                k -= 1 << 64
            return Raw(base.bv, base.off + k)
        raise ToolLimit('gep on %r in %s' % (base, ' < '.join(self.dem(f.fn.name)[:80] for f in st.frames[::-1])))

    def _sx(self, v):
        if z3.is_bool(v):
            v = z3.If(v, bv(1, 64), bv(0, 64))
        if v.size() < 64:
            return z3.SignExt(64 - v.size(), v)
        return v

    # ---- running -----------------------------------------------------------------------
    def push_frame(self, st, fn, args, inst=None, onret=None):
        f = Frame()
        f.fn = fn
        f.blk = 0
        f.idx = 0
        f.prev = None
        f.loc = {'a%d' % i: a for i, a in enumerate(args)}
        f.inst = inst
        f.cuts = {}
        f.loopent = None
        f.caught = ()
        f.onret = onret
        f.unrolls = {}
        st.frames.append(f)
        if len(st.frames) > self.max_inline:
            raise ToolLimit('call depth (%s)' % self.dem(fn.name)[:80])

    def run_function(self, st, name, args):
        """Execute function body on st; returns list of (state, outcome)."""
        fn = self.m.func(name)
        if fn is None:
            raise ToolLimit('no body for %s' % self.dem(name))
        assert not st.frames
        self.push_frame(st, fn, args)
        return self.explore([st])

    def observe(self, st, name, args=()):
        """value of a pure observer function in state st (st is not changed)"""
        s = st.fork()
        s.frames = []
        s.writes = None
        nob = len(self.obls)
        self.discover += 1
        try:
            fn = self.m.func(name)
            if fn is None:
                raise ToolLimit('no observer %s' % name)
            self.push_frame(s, fn, list(args))
            fin = self.explore([s])
        finally:
            self.discover -= 1
        fin = [(q, o[1]) for q, o in fin if o[0] == 'ret']
        if not fin:
            raise ToolLimit('observer %s has no result' % name)
        if len(fin) == 1:
            # regions the observer created (views of strings) stay readable
            for rid, rs in fin[0][0].mem.items():
                if rid not in st.mem:
                    st.mem[rid] = rs
            for c in fin[0][0].pc[len(st.pc):]:
                st.pc.append(c)
            return fin[0][1]
        v = fin[-1][1]
        if not all(z3.is_expr(x) for _, x in fin):
            raise ToolLimit('observer %s branches on objects' % name)
        n = len(st.pc)
        for q, x in fin[:-1]:
            v = z3.If(z3.And(*q.pc[n:]), x, v)
        return simp(v)

    def explore(self, states):
        save_work, save_fin = self.work, self.finished
        self.work = list(states)
        self.finished = []
        try:
            while self.work:
                if len(self.finished) > self.max_paths:
                    raise ToolLimit('too many paths')
                s = self.work.pop()
                try:
                    self.run_path(s)
                except PathEnd:
                    pass
            return self.finished
        finally:
            self.work, self.finished = save_work, save_fin

    def run_path(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise ToolLimit('step budget')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise ToolLimit('time budget')
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].insts[fr.idx]
            if not self.step(st, fr, ins):
                return

    def fork_on(self, st, cond):
        """split st on cond -> (st_true or None, st_false or None).  st itself reused."""
        c = simp(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        t = self.feasible(st, c)
        f = self.feasible(st, simp(z3.Not(c)))
        if t and f:
            o = st.fork()
            st.assume(c)
            o.assume(simp(z3.Not(c)))
            return st, o
        if t:
            return st, None
        if f:
            return None, st
        raise PathEnd()

    def branch(self, st, fr, target):
        fr.prev = fr.blk
        fr.blk = target
        fr.idx = 0
        if target in fr.fn.headers:
            return self.at_header(st, fr, target)
        # leaving loops: drop cut tokens of loops we are no longer inside
        for h in list(fr.cuts):
            if target not in fr.fn.loops[h]:
                del fr.cuts[h]
        return True

    # ---- loops ---------------------------------------------------------------------------
    def at_header(self, st, fr, h):
        for q in list(fr.cuts):
            if q != h and h not in fr.fn.loops[q]:
                del fr.cuts[q]
        if fr.prev in fr.fn.loops[h]:
            # back edge
            if h in fr.cuts:
                cut = fr.cuts[h]
                self.eval_phis(st, fr)
                if cut['kind'] == 'cut':
                    if cut.get('key', ()) != self.loop_key(st):
                        # another stage of an iteration over a container: a loop of its own
                        if cut.get('probe'):
                            return False
                        if self.exits_at_once(st, h):
                            fr.unrolls[h] = 0
                            del fr.cuts[h]
                            fr.cuts[h] = {'kind': 'stage'}
                            return True
                        return self.cut_loop(st, fr, h, self.loop_spec_for(st, fr, h))
                    cut['close'](st, fr)
                    return False
                if cut['kind'] == 'count':
                    if cut['n'] >= 3:
                        cut['close'](st, fr)
                        return False
                    fr.cuts[h] = dict(cut, n=cut['n'] + 1)
                    return True
                if cut['kind'] == 'stage':
                    if self.exits_at_once(st, h):
                        return True
                    return self.cut_loop(st, fr, h, self.loop_spec_for(st, fr, h))
            n = fr.unrolls.get(h, 0) + 1
            fr.unrolls[h] = n
            if n > self.unroll_limit(fr, h):
                raise ToolLimit('loop in %s not closed by %d unrollings' % (self.dem(fr.fn.name)[:90], n))
            self.eval_phis(st, fr)
            return True
        # entry
        spec = self.loop_spec_for(st, fr, h)
        if spec == 'unroll':
            fr.unrolls[h] = 0
            self.eval_phis(st, fr)
            return True
        self.eval_phis(st, fr)
        if spec is None and self.exits_at_once(st, h):
            fr.unrolls[h] = 0
            if self.loop_key(st):
                fr.cuts[h] = {'kind': 'stage'}
            return True
        if spec is None and self.dem(fr.fn.name).split('(')[0].find('std::') >= 0 and self.exits_at_once(st, h, count=True):
            # a library loop of at most three rounds from here: run as it is
            fr.unrolls[h] = 0
            return True
        return self.cut_loop(st, fr, h, spec)

    def loop_key(self, st):
        """stage of the container iterations under way (see containers.py)"""
        it = st.ghost.get('iter')
        return tuple(sorted(it.items())) if it else ()

    def exits_at_once(self, st, h, count=False):
        """from this state no path takes the back edge of h, so there is nothing to cut"""
        hit = []

        class Back(Exception):
            pass

        def close(s, f):
            hit.append(1)
            raise Back()
        d = st.fork()
        d.writes = None
        d.frames[-1].cuts[h] = {'kind': 'count' if count else 'cut', 'close': close, 'key': self.loop_key(st), 'probe': True, 'n': 0}
        self.discover += 1
        try:
            self.run_loop_body(d, h, len(d.frames))
        except Back:
            pass
        finally:
            self.discover -= 1
        return not hit

    def unroll_limit(self, fr, h):
        return 70

    def loop_spec_for(self, st, fr, h):
        d = self.dem(fr.fn.name)
        for rx, spec in self.loopspecs.items():
            if re.search(rx, d):
                if isinstance(spec, (list, tuple)):
                    order = sorted(fr.fn.headers)
                    i = order.index(h)
                    return spec[min(i, len(spec) - 1)]
                return spec
        return None

    def eval_phis(self, st, fr):
        blk = fr.fn.blocks[fr.blk]
        vals = []
        n = 0
        for ins in blk.insts:
            if ins.op != 'phi':
                break
            vals.append((ins.id, self.val(st, fr, ins.x[fr.prev])))
            n += 1
        for i, v in vals:
            fr.loc[i] = v
        fr.idx = n

    def cut_loop(self, st, fr, h, spec):
        """spec: callable(ex, st, fr, entry_state, entry_phis) -> [(label, Bool)] or None"""
        phis = [i for i in fr.fn.blocks[h].insts if i.op == 'phi']
        entry = st.snap()
        entry_phi = {i.id: fr.loc[i.id] for i in phis}
        depth = len(st.frames)
        modset = set()
        phichanged = set(i.id for i in phis)
        aux = {}

        opts = {}

        def note_ptr(key, v, nreg0):
            if isinstance(v, Ptr):
                if v.rid > nreg0:
                    if key[0] != 'phi' and key[1] not in entry.mem[key[0]].cells:
                        return
                    raise ToolLimit('loop-carried pointer to an object made in the loop')
                sd = v.rid and self.regions[v.rid].ghost.get('stride')
                if sd and index_of(v.off, sd)[1]:
                    raise ToolLimit('loop-carried pointer into the middle of an element')
                d = opts.setdefault(key, {})
                o = as_int(v.off)
                d[v.rid] = o if v.rid not in d or d[v.rid] == o else None

        def note_close(s, f, nreg0):
            """objects the loop-carried pointers may designate"""
            for i in phis:
                note_ptr(('phi', i.id), f.loc[i.id], nreg0)
            for rid, o in mod_cells(s):
                c = s.mem[rid].cells.get(o)
                if c and c[0] == 8:
                    note_ptr((rid, o), c[1], nreg0)

        def mod_cells(s):
            out = set()
            for rid, o, n in modset:
                if isinstance(n, int) and o is not None and rid in s.mem and rid in entry.mem:
                    if n <= 8:
                        out.add((rid, o))
                    else:
                        out |= {(rid, k) for k in set(s.mem[rid].cells) | set(entry.mem[rid].cells) if o <= k < o + n}
            return out

        def choose(states, key, write):
            ch = opts.get(key, {})
            rids = sorted(ch)
            if len(rids) < 1 or (len(rids) == 1 and (ch[rids[0]] is None or rids[0] == 0)):
                return states
            out = []
            for q in states:
                for r in rids:
                    t = q if r == rids[-1] else q.fork()
                    write(t, NULL if r == 0 else self.hv_ptr(r, 'hv') if ch[r] is None else Ptr(r, ch[r]))
                    out.append(t)
            if len(out) > 32:
                raise ToolLimit('too many pointer cases in a loop')
            return out

        def havoc(s):
            """havoc everything the loop may write, in s; one state per choice of pointer targets"""
            f = s.frames[-1]
            states = [s]
            for i in phis:
                v = entry_phi[i.id]
                f.loc[i.id] = self.havoc_val(s, v, i.ty, 'phi%s' % i.id)
            for rid, o, n in sorted(modset, key=str):
                self.havoc_loc(s, rid, o, n)
            for i in phis:
                def wp(t, v, i=i):
                    t.frames[-1].loc[i.id] = v
                states = choose(states, ('phi', i.id), wp)
            for key in sorted(k for k in opts if k[0] != 'phi'):
                if key[0] in s.mem:
                    def wm(t, v, key=key):
                        self.clear_range(t, key[0], key[1], 8)
                        t.wr(key[0]).cells[key[1]] = (8, v)
                    states = choose(states, key, wm)
            return states

        note_close(st, fr, self.nreg)
        # discovery: run body without recording obligations until the write set is stable
        for it in range(8):
            nreg0 = self.nreg
            before = (set(modset), {k: dict(v) for k, v in opts.items()})
            collected = []
            newopts = []

            def dclose(s, f):
                # what is written on a path that leaves the loop does not change between rounds
                newopts.append((s, f))
                collected.extend(s.writes)
            d = st.fork()
            d.writes = None
            for q in havoc(d):
                if spec:
                    for l, c in spec(self, q, q.frames[-1], entry, entry_phi):
                        q.assume(c)
                q.frames[-1].cuts[h] = {'kind': 'cut', 'close': dclose, 'key': self.loop_key(st), 'probe': True}
                q.writes = []
                self.discover += 1
                try:
                    self.run_loop_body(q, h, depth)
                finally:
                    self.discover -= 1
            for w in collected:
                if w[0] <= nreg0 and not self.regions[w[0]].ghost.get('scratch'):
                    modset.add(w)
            note_close(st, fr, nreg0)
            for s, f in newopts:
                note_close(s, f, nreg0)
            if (modset, opts) == before:
                break
        else:
            raise ToolLimit('loop write set does not stabilise')
        if st.writes is not None:
            st.writes.extend(modset)
        # Houdini over automatic candidates
        cands = self.auto_candidates(st, fr, entry, entry_phi, modset, phis)
        cands0 = cands
        conds = {i: simp(c(self, st, st.frames[-1])) for i, c in enumerate(cands)}
        bad = set(self.falsified(st, conds))
        cands = [c for i, c in enumerate(cands) if i not in bad and self.must(st, conds[i])]
        if DEBUG:
            print('loop %s: %d candidates, %d on entry, depth %d' % (h, len(cands0), len(cands), self.discover))
        if DEBUG:
            for c in cands0:
                if c not in cands:
                    print('  not on entry:', c.__code__.co_filename[-12:], c.__code__.co_firstlineno)
        for it in range(8):
            if not cands:
                break
            bad = set()

            def hclose(s, f):
                conds = {i: simp(c(self, s, f)) for i, c in enumerate(cands) if i not in bad}
                for i in self.falsified(s, conds):
                    if DEBUG > 1:
                        print('    falsified', h, str(conds[i])[:200].replace('\n', ' '))
                    bad.add(i)
                    del conds[i]
                for i in conds:
                    if conds[i] is not None and not self.must(s, conds[i]):
                        bad.add(i)
            for d in havoc(st.fork()):
                if spec:
                    for l, c in spec(self, d, d.frames[-1], entry, entry_phi):
                        d.assume(c)
                for c in cands:
                    d.assume(c(self, d, d.frames[-1]))
                if not self.feasible(d):
                    continue
                d.frames[-1].cuts[h] = {'kind': 'cut', 'close': hclose, 'key': self.loop_key(st), 'probe': True}
                self.discover += 1
                try:
                    self.run_loop_body(d, h, depth)
                finally:
                    self.discover -= 1
            if DEBUG:
                print('  round %d: %d of %d not inductive' % (it, len(bad), len(cands)), round(time.time() - self.t0 if hasattr(self, 't0') else 0))
            if not bad:
                break
            cands = [c for i, c in enumerate(cands) if i not in bad]
        else:
            cands = []
        # the real thing
        if spec:
            for l, c in spec(self, st, st.frames[-1], entry, entry_phi):
                self.oblige(st, 'loop invariant holds on entry: ' + l, c)

        def close(s, f):
            if spec:
                for l, c in spec(self, s, f, entry, entry_phi):
                    self.oblige(s, 'loop invariant preserved: ' + l, c)

            def known(key, v0, v1):
                if isinstance(v1, Ptr) and (v1.rid in opts.get(key, ())):
                    want = opts[key][v1.rid]
                    if want is not None and as_int(v1.off) != want:
                        raise ToolLimit('loop-carried pointer moves')
                    return
                try:
                    self.check_havocable(s, v0, v1)
                except ToolLimit as e:
                    raise ToolLimit('%s: %s from %r to %r' % (e, self.regions[key[0]].name if key[0] != 'phi' else key, v0, v1))
            for i in phis:
                known(('phi', i.id), entry_phi[i.id], f.loc[i.id])
            for rid, o in mod_cells(s):
                if True:
                    c0, c1 = entry.mem[rid].cells.get(o), s.mem[rid].cells.get(o)
                    if c0 and c1 and c0[0] == c1[0] and isinstance(c0[1], (Ptr, Raw)):
                        known((rid, o), c0[1], c1[1])
                    elif c1 and isinstance(c1[1], Ptr) and c1[1].rid and c1[1].rid not in opts.get((rid, o), ()) and \
                            entry.mem[rid].alive and self.regions[rid].kind != 'stack':
                        raise ToolLimit('loop stores a pointer into %s' % self.regions[rid].name)
        cont = None
        for q in havoc(st):
            if spec:
                for l, c in spec(self, q, q.frames[-1], entry, entry_phi):
                    q.assume(c)
            for c in cands:
                q.assume(c(self, q, q.frames[-1]))
            q.frames[-1].cuts[h] = {'kind': 'cut', 'close': close, 'key': self.loop_key(st)}
            if not self.feasible(q):
                continue
            if q is st:
                cont = q
            else:
                self.work.append(q)
        return cont is not None

    def run_loop_body(self, d, h, depth):
        """explore d until paths close at header h or leave the loop (paths that leave are dropped)"""
        save = (self.work, self.finished, getattr(self, 'stop_loop', None))
        self.work = [d]
        self.finished = []
        self.stop_loop = (depth, h)
        try:
            while self.work:
                s = self.work.pop()
                try:
                    while True:
                        self.steps += 1
                        if self.steps > self.max_steps:
                            raise ToolLimit('step budget')
                        if len(s.frames) < depth:
                            break
                        if len(s.frames) == depth:
                            fr = s.frames[-1]
                            if fr.blk not in fr.fn.loops[h]:
                                break
                        fr = s.frames[-1]
                        ins = fr.fn.blocks[fr.blk].insts[fr.idx]
                        if not self.step(s, fr, ins):
                            break
                except PathEnd:
                    pass
        finally:
            self.work, self.finished, self.stop_loop = save

    def auto_inv(self, *a):
        return []

    def auto_candidates(self, st, fr, entry, entry_phi, modset, phis):
        h = self.lib.auto_candidates if hasattr(self.lib, 'auto_candidates') else None
        return h(self, st, fr, entry, entry_phi, modset, phis) if h else []

    def hv_ptr(self, rid, name):
        # a pointer into an array of elements stays at the start of one (checked where the loop closes)
        sd = self.regions[rid].ghost.get('stride')
        k = self.fresh(name + '_off', 64)
        return Ptr(rid, k if not sd else simp(bv(sd) * k))

    def havoc_val(self, st, v, ty, name):
        if ty.kind == 'int':
            return self.fresh(name, ty.width if ty.width > 1 else 1)
        if ty.kind == 'ptr':
            if isinstance(v, Ptr) and v.rid != 0:
                return self.hv_ptr(v.rid, name)
            return Raw(self.fresh(name, 64))
        if ty.kind in ('float', 'double'):
            return FP(self.fresh(name, ty.size * 8))
        raise ToolLimit('havoc of %s' % ty)

    def check_havocable(self, st, v0, v1):
        if isinstance(v0, Ptr) and v0.rid != 0:
            if not (isinstance(v1, Ptr) and v1.rid == v0.rid):
                raise ToolLimit('loop-carried pointer changes object')
        elif isinstance(v0, Ptr) or isinstance(v0, Raw):
            if isinstance(v1, Ptr) and v1.rid != 0:
                raise ToolLimit('loop-carried pointer changes object')

    def havoc_loc(self, st, rid, o, n):
        if rid not in st.mem:
            return
        rs = st.wr(rid)
        reg = self.regions[rid]
        if n == 'abs':
            av = rs.absd.get(o)
            if av is not None:
                rs.absd[o] = av.havoc(self, st) if hasattr(av, 'havoc') else None
                if rs.absd[o] is None:
                    del rs.absd[o]
            return
        if rs.arr is not None or o is None or n is None:
            if rs.arr is None:
                self.to_arr(st, rid)
            st.wr(rid).arr = self.fresh('hv_' + reg.name, 'arr')
            return
        if n > 8:
            # a copied object: cell by cell
            inside = [(k, cs) for k, (cs, _) in rs.cells.items() if o <= k and k + cs <= o + n]
            if inside:
                for k, cs in inside:
                    self.havoc_loc(st, rid, k, cs)
                return
        c = rs.cells.get(o)
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, Ptr) and v.rid != 0:
                nv = self.hv_ptr(v.rid, 'hv')
            elif isinstance(v, (Ptr, Raw)):
                nv = Raw(self.fresh('hv_p', 64))
            elif isinstance(v, FP):
                nv = FP(self.fresh('hv_f', 8 * n))
            elif isinstance(v, Fn):
                raise ToolLimit('loop writes function pointer')
            else:
                nv = self.fresh('hv_%s_%d' % (reg.name, o), 8 * n)
            rs.cells[o] = (n, nv)
            return
        self.clear_range(st, rid, o, n)
        if reg.default == 'sym':
            nv = self.fresh('hv_%s_%d' % (reg.name, o), 8 * n)
            st.wr(rid).cells[o] = (n, nv)

    # ---- instruction semantics -------------------------------------------------------------
    def b2v(self, v, w):
        if z3.is_bool(v):
            return z3.If(v, bv(1, w), bv(0, w))
        return v

    def step(self, st, fr, ins):
        op = ins.op
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, ins)
        if op == 'br':
            if not ins.ops:
                return self.branch(st, fr, ins.x[0])
            c = self.val(st, fr, ins.ops[0])
            self.undef_check(st, c)
            # LLVM operand order for cond br: successors [true, false]
            t, f = self.fork_on(st, c)
            if t is not None and f is not None:
                # continue with st (== t), queue f
                ffr = f.frames[-1]
                f.trail.append(0)
                if self.branch_safe(f, ffr, ins.x[1]):
                    self.work.append(f)
                t.trail.append(1)
                return self.branch(t, t.frames[-1], ins.x[0])
            if t is not None:
                return self.branch(t, t.frames[-1], ins.x[0])
            return self.branch(f, f.frames[-1], ins.x[1])
        if op == 'switch':
            v = self.val(st, fr, ins.ops[0])
            self.undef_check(st, v)
            default, cases = ins.x
            for cv, tgt in cases:
                k = self.cval(st, cv)
                c = simp(v == k)
                t = self.feasible(st, c)
                f = self.feasible(st, simp(z3.Not(c)))
                if t and f:
                    o = st.fork()
                    o.assume(c)
                    st.assume(simp(z3.Not(c)))
                    if self.branch_safe(o, o.frames[-1], tgt):
                        self.work.append(o)
                elif t:
                    return self.branch(st, st.frames[-1], tgt)
                elif not f:
                    raise PathEnd()
            return self.branch(st, st.frames[-1], default)
        if op == 'ret':
            v = self.val(st, fr, ins.ops[0]) if ins.ops else None
            return self.do_ret(st, v)
        if op == 'unreachable':
            raise PathEnd()
        if op == 'resume':
            e = fr.caught
            if not e:
                raise ToolLimit('resume without exception')
            return self.unwind(st, e)
        r = self.compute(st, fr, ins)
        fr.loc[ins.id] = r
        fr.idx += 1
        return True

    def branch_safe(self, s, fr, tgt):
        try:
            return self.branch(s, fr, tgt)
        except PathEnd:
            return False

    def undef_check(self, st, c):
        if not self.keep_undef_check or self.discover:
            return
        if self.has_undef(c):
            self.oblige(st, 'no decision on an uninitialised value', False)

    def has_undef(self, e):
        seen = set()
        stack = [e]
        n = 0
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            n += 1
            if n > 2000:
                return False
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('undef!'):
                        return True
                else:
                    stack.extend(x.children())
        return False

    def do_ret(self, st, v):
        fr = st.frames.pop()
        # stack objects die
        if fr.onret is not None:
            v = fr.onret(self, st, v)
        if not st.frames:
            self.finished.append((st, ('ret', v)))
            return False
        cf = st.frames[-1]
        return self.after_call(st, cf, fr.inst, v)

    def after_call(self, st, cf, ins, v):
        cf.loc[ins.id] = v
        if ins.op == 'invoke':
            return self.branch(st, cf, ins.x['normal'])
        cf.idx += 1
        return True

    def unwind(self, st, exc):
        """propagate exc out of the current top frame position"""
        st.frames.pop()
        return self.raise_in(st, exc)

    def raise_in(self, st, exc):
        """exception raised by the call instruction at which the top frame stands"""
        while True:
            if not st.frames:
                self.finished.append((st, ('throw', exc)))
                return False
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].insts[fr.idx]
            if ins.op == 'invoke':
                tgt = ins.x['unwind']
                blk = fr.fn.blocks[tgt]
                lp = [i for i in blk.insts if i.op == 'landingpad']
                if not lp:
                    raise ToolLimit('unwind target without landingpad')
                cleanup, clauses = lp[0].x
                sel = None
                for c in clauses:
                    if c[0] == 'null':
                        sel = self.tid(None)
                        break
                    if c[0] == 'global' and self.exc_matches(exc.tname, c[1]):
                        sel = self.tid(c[1])
                        break
                    if c[0] in ('agg', 'zero'):   # filter
                        sel = 0xffffffff
                        break
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    fr.caught = exc
                    ok = self.branch(st, fr, tgt)
                    if not ok:
                        return False
                    # evaluate up to landingpad
                    fr = st.frames[-1]
                    b = fr.fn.blocks[fr.blk]
                    while b.insts[fr.idx].op == 'phi':
                        i = b.insts[fr.idx]
                        fr.loc[i.id] = self.val(st, fr, i.x[fr.prev])
                        fr.idx += 1
                    fr.loc[b.insts[fr.idx].id] = Agg([exc.ptr, bv(sel, 32)])
                    fr.idx += 1
                    return True
            st.frames.pop()

    def tid(self, name):
        if name is None:
            return 1
        self._tids = getattr(self, '_tids', {})
        return self._tids.setdefault(name, len(self._tids) + 2)

    BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
             '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTIN5boost6system12system_errorE': '_ZTISt13runtime_error',
             '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error',
             '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception'}

    def exc_matches(self, t, c):
        while t:
            if t == c:
                return True
            b = self.BASES.get(t)
            if b is None:
                g, init = self.m.global_init(t)
                if init and init[0] == 'agg' and len(init[2]) >= 3:
                    # __si_class_type_info: {vtable, name, base}; __vmi: flags,count,base...
                    for e in init[2][2:]:
                        if e[0] == 'global' and self.exc_matches(e[1], c):
                            return True
                return False
            t = b
        return False

    def compute(self, st, fr, ins):
        op = ins.op
        V = lambda k: self.val(st, fr, ins.ops[k])
        if op == 'phi':
            return self.val(st, fr, ins.x[fr.prev])
        if op == 'alloca':
            n = as_int(self.val(st, fr, ins.ops[0]))
            sz = (ins.x.size or 0) * (n or 1)
            r = self.region(st, 'local_%s' % (ins.x.name or ins.x.kind).split('::')[-1][:30], sz, default='undef', kind='stack',
                            tyname=ins.x.name)
            return Ptr(r.id, 0)
        if op == 'load':
            return self.load(st, V(0), ins.ty)
        if op == 'store':
            self.store(st, V(1), V(0), ins.x)
            return None
        if op == 'getelementptr':
            return self.gep(st, V(0), ins.x, [V(k) for k in range(1, len(ins.ops))])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(0), V(1)
            if z3.is_bool(a):
                if op == 'and':
                    return simp(z3.And(a, b))
                if op == 'or':
                    return simp(z3.Or(a, b))
                if op in ('xor', 'add', 'sub'):
                    return simp(z3.Xor(a, b))
                raise ToolLimit('i1 ' + op)
            if not (z3.is_expr(a) and z3.is_expr(b)):
                raise ToolLimit('%s on %r,%r' % (op, a, b))
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige(st, 'no division by zero', b != 0)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b),
                 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b),
                 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'and': lambda: a & b,
                 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
            return simp(r)
        if op == 'icmp':
            return self.icmp(st, ins.x, V(0), V(1))
        if op == 'zext':
            v = V(0)
            if z3.is_bool(v):
                return simp(z3.If(v, bv(1, ins.ty.width), bv(0, ins.ty.width)))
            return simp(z3.ZeroExt(ins.ty.width - v.size(), v))
        if op == 'sext':
            v = V(0)
            if z3.is_bool(v):
                return simp(z3.If(v, bv(-1, ins.ty.width), bv(0, ins.ty.width)))
            return simp(z3.SignExt(ins.ty.width - v.size(), v))
        if op == 'trunc':
            v = V(0)
            if ins.ty.width == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ins.ty.width - 1, 0, v))
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            c = simp(c)
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            if z3.is_expr(a) and z3.is_expr(b):
                if z3.is_bool(a):
                    return simp(z3.If(c, a, b))
                return simp(z3.If(c, a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.rid and st.mem[a.rid].arr is not None:
                return Ptr(a.rid, simp(z3.If(c, a.off, b.off)))
            t, f = self.fork_on(st, c)
            if t is not None and f is not None:
                ff = f.frames[-1]
                ff.loc[ins.id] = b
                ff.idx += 1
                self.work.append(f)
                return a
            return a if t is not None else b
        if op == 'ptrtoint':
            v = V(0)
            if isinstance(v, Ptr):
                return self.ptr2int(v)
            if isinstance(v, Raw):
                return simp(v.bv + v.off)
            if isinstance(v, Fn):
                return z3.BitVec('fnaddr_' + v.name, 64)
            raise ToolLimit('ptrtoint %r' % (v,))
        if op == 'inttoptr':
            v = V(0)
            if as_int(v) == 0:
                return NULL
            return self.int2ptr(st, v)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return V(0)
        if op == 'extractvalue':
            v = V(0)
            for i in ins.x:
                v = v.vals[i]
            return v
        if op == 'insertvalue':
            a = V(0)
            if len(ins.x) == 1:
                l = list(a.vals)
                l[ins.x[0]] = V(1)
                return Agg(l)
            l = list(a.vals)
            inner = list(l[ins.x[0]].vals)
            inner[ins.x[1]] = V(1)
            l[ins.x[0]] = Agg(inner)
            return Agg(l)
        if op == 'atomicrmw':
            p, v = V(0), V(1)
            old = self.load(st, p, ins.ty)
            if ins.x == 'xchg':
                nv = v
            elif ins.x in ('add', 'sub', 'and', 'or', 'xor'):
                nv = simp({'add': lambda: old + v, 'sub': lambda: old - v, 'and': lambda: old & v, 'or': lambda: old | v,
                           'xor': lambda: old ^ v}[ins.x]())
            else:
                raise ToolLimit('atomicrmw ' + str(ins.x))
            self.store(st, p, nv, ins.ty)
            return old
        if op == 'cmpxchg':
            p, c, n = V(0), V(1), V(2)
            ty = ins.ty.elems[0]
            old = self.load(st, p, ty)
            eq = self.icmp(st, 'eq', old, c)
            t, f = self.fork_on(st, eq)
            if t is not None and f is not None:
                ff = f.frames[-1]
                ff.loc[ins.id] = Agg([old, z3.BoolVal(False)])
                ff.idx += 1
                self.work.append(f)
            if t is not None:
                self.store(t, p, n, ty)
                return Agg([old, z3.BoolVal(True)])
            return Agg([old, z3.BoolVal(False)])
        if op == 'fence':
            return None
        if op in ('uitofp', 'sitofp'):
            v = V(0)
            f = z3.Function('%s_%d_%d' % (op, v.size(), ins.ty.size * 8), v.sort(), z3.BitVecSort(ins.ty.size * 8))
            return FP(f(v))
        if op in ('fptoui', 'fptosi'):
            v = V(0)
            f = z3.Function('%s_%d_%d' % (op, v.e.size(), ins.ty.width), v.e.sort(), z3.BitVecSort(ins.ty.width))
            return f(v.e)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(0), V(1)
            f = z3.Function('%s_%d' % (op, a.e.size()), a.e.sort(), a.e.sort(), a.e.sort())
            return FP(f(a.e, b.e))
        if op == 'fcmp':
            a, b = V(0), V(1)
            f = z3.Function('fcmp_%d_%d' % (ins.x, a.e.size()), a.e.sort(), a.e.sort(), z3.BoolSort())
            return f(a.e, b.e)
        raise ToolLimit('instruction %s in %s' % (op, self.dem(fr.fn.name)[:80]))

    def int2ptr(self, st, v):
        # base + off of a known region?
        for rid in st.mem:
            r = self.regions[rid]
            d = simp(v - r.base)
            if r.base.decl().name() not in str(d)[:2000]:
                return Ptr(rid, d)
        return Raw(v)

    def icmp(self, st, pred, a, b):
        if isinstance(a, (Ptr, Raw, Fn)) or isinstance(b, (Ptr, Raw, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    eq = z3.BoolVal(a.name == b.name)
                elif is_null(a) or is_null(b):
                    eq = z3.BoolVal(False)
                else:
                    o = b if isinstance(a, Fn) else a
                    f = a if isinstance(a, Fn) else b
                    if isinstance(o, Raw):
                        eq = (o.bv + o.off) == z3.BitVec('fnaddr_' + f.name, 64)
                    else:
                        eq = z3.BoolVal(False)
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid:
                    eq = a.off == b.off
                    if pred not in ('eq', 'ne'):
                        x, y = a.off, b.off
                        return simp({'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y),
                                     'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                                     'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]())
                elif a.rid == 0 or b.rid == 0:
                    eq = z3.BoolVal(False)
                else:
                    eq = z3.BoolVal(False)
            else:
                def toi(v):
                    if isinstance(v, Ptr):
                        return self.ptr2int(v)
                    if isinstance(v, Raw):
                        return v.bv + v.off
                    return v
                if isinstance(a, Ptr) and a.rid != 0 or isinstance(b, Ptr) and b.rid != 0:
                    # distinct allocations vs opaque pointer: allow hook, else opaque objects never alias regions
                    eq = z3.BoolVal(False)
                else:
                    eq = toi(a) == toi(b)
                if pred not in ('eq', 'ne'):
                    raise ToolLimit('ordering of unrelated pointers')
            if pred == 'eq':
                return simp(eq)
            if pred == 'ne':
                return simp(z3.Not(eq))
            raise ToolLimit('pointer ordering %s %r %r' % (pred, a, b))
        if z3.is_bool(a):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            a, b = self.b2v(a, 8), self.b2v(b, 8)
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                     'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                     'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]())

    # ---- calls ------------------------------------------------------------------------------
    def do_call(self, st, fr, ins):
        cal = ins.x['callee']
        args = [None if o[0] == 'meta' else self.val(st, fr, o) for o in ins.ops]
        if cal[0] == 'v':
            fv = fr.loc[cal[1]]
            if isinstance(fv, Fn):
                name = fv.name
            else:
                return self.indirect(st, fr, ins, fv, args)
        elif cal[0] == 'fn':
            name = cal[1]
        elif cal[0] == 'asm':
            raise ToolLimit('inline asm')
        elif cal[0] == 'null':
            self.oblige(st, 'no call through null', False)
            raise PathEnd()
        else:
            raise ToolLimit('callee %s' % (cal,))
        for q, sz in ins.x['byval'].items():
            r = self.region(st, 'byval', sz, default='undef', kind='stack')
            self.copy_mem(st, Ptr(r.id, 0), args[q], sz)
            args[q] = Ptr(r.id, 0)
        return self.call(st, fr, ins, name, args)

    def indirect(self, st, fr, ins, fv, args):
        h = getattr(fv, 'call', None)
        if h is not None:
            return self.finish_outcomes(st, fr, ins, h(self, st, args))
        raise ToolLimit('indirect call through %r in %s' % (fv, self.dem(fr.fn.name)[:80]))

    def call(self, st, fr, ins, name, args):
        if name.startswith('llvm.'):
            v = self.intrinsic(st, fr, ins, name, args)
            return self.after_call(st, fr, ins, v)
        while name in self.m.aliases:
            name = self.m.aliases[name]
        d = self.dem(name)
        own = self.contracts.find(name, d) if self.contracts and getattr(self.root, 'first', False) else None
        if own is not None and not own.applies(self, st):
            own = None
        mdl = self.find_model(name, d) if own is None else None
        if mdl is not None:
            key, f = mdl
            if not key.startswith('~'):
                self.used_models[key] = self.used_models.get(key, 0) + 1
            out = f(self, st, args, ins)
            if out is not INLINE:
                return self.finish_outcomes(st, fr, ins, out)
        c = self.contracts.find(name, d) if self.contracts else None
        if c is not None and hasattr(c, 'applies') and not c.applies(self, st):
            c = None
        if c is not None:
            self.used_contracts[c.title] = self.used_contracts.get(c.title, 0) + 1
            out = c.apply(self, st, args, ins)
            return self.finish_outcomes(st, fr, ins, out)
        if not self.m.has_body(name):
            raise ToolLimit('call to external %s (from %s)' % (d[:160], self.dem(fr.fn.name)[:80]))
        fn = self.m.func(name)
        self.inlined[d] = self.inlined.get(d, 0) + 1
        self.push_frame(st, fn, args, inst=ins)
        return True

    def finish_outcomes(self, st, fr, ins, out):
        """out: value | Outcomes"""
        if not isinstance(out, Outcomes):
            return self.after_call(st, st.frames[-1], ins, out)
        cont = None
        for s, kind, v in out.items:
            if cont is None and s is st:
                cont = (s, kind, v)
                continue
            try:
                if kind == 'ret':
                    ok = self.after_call(s, s.frames[-1], ins, v)
                elif kind == 'throw':
                    ok = self.raise_in(s, v)
                elif kind == 'end':
                    ok = False
                elif kind == 'call':
                    ok = self.tail_call(s, ins, v)
                if ok:
                    self.work.append(s)
            except PathEnd:
                pass
        if cont is None:
            return False
        s, kind, v = cont
        if kind == 'ret':
            return self.after_call(s, s.frames[-1], ins, v)
        if kind == 'throw':
            return self.raise_in(s, v)
        if kind == 'call':
            return self.tail_call(s, ins, v)
        return False

    def tail_call(self, s, ins, v):
        """v = (function name, args, onret): run that function, its result becomes the call's result"""
        name, args, onret = v
        fn = self.m.func(name)
        if fn is None:
            raise ToolLimit('no body for %s' % self.dem(name)[:120])
        self.inlined[self.dem(name)] = self.inlined.get(self.dem(name), 0) + 1
        self.push_frame(s, fn, args, inst=ins, onret=onret)
        return True

    def find_model(self, name, d):
        r = self.model_cache.get(name, 0)
        if r != 0:
            return r
        r = self.lib.find(name, d)
        self.model_cache[name] = r
        return r

    def intrinsic(self, st, fr, ins, name, args):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias',
                            'llvm.donothing', 'llvm.prefetch')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy_mem(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.memset'):
            self.set_mem(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.bswap'):
            v = args[0]
            n = v.size() // 8
            return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)]))
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.eh.typeid.for'):
            o = ins.ops[0]
            return bv(self.tid(o[1] if o[0] == 'global' else None), 32)
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', name)
        if m:
            a, b = args
            w = a.size()
            sgn, o = m.groups()
            ext = z3.ZeroExt if sgn == 'u' else z3.SignExt
            A, B = ext(w, a), ext(w, b)
            R = {'add': A + B, 'sub': A - B, 'mul': A * B}[o]
            r = z3.Extract(w - 1, 0, R)
            return Agg([simp(r), simp(ext(w, r) != R)])
        m = re.match(r'llvm\.(umax|umin|smax|smin)', name)
        if m:
            a, b = args
            c = {'umax': z3.UGE(a, b), 'umin': z3.ULE(a, b), 'smax': a >= b, 'smin': a <= b}[m.group(1)]
            return simp(z3.If(c, a, b))
        if name.startswith('llvm.abs'):
            a = args[0]
            return simp(z3.If(a < 0, -a, a))
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz') or name.startswith('llvm.ctpop'):
            raise ToolLimit(name)
        if name.startswith('llvm.is.constant'):
            return z3.BoolVal(False)
        if name.startswith('llvm.objectsize'):
            return bv(-1, ins.ty.width)
        if name.startswith('llvm.stacksave'):
            return NULL
        if name.startswith('llvm.stackrestore'):
            return None
        if name.startswith('llvm.trap'):
            self.oblige(st, 'no trap', False)
            raise PathEnd()
        if name.startswith('llvm.fmuladd'):
            a, b, c = args
            f = z3.Function('fmuladd', a.e.sort(), b.e.sort(), c.e.sort(), a.e.sort())
            return FP(f(a.e, b.e, c.e))
        raise ToolLimit('intrinsic ' + name)


def index_of(off, sd):
    """(i, r) with off == sd * i + r, 0 <= r < sd, read off the shape of the expression"""
    if isinstance(off, int):
        return bv(off // sd), off % sd
    off = simp(off)
    c, out = 0, []
    for t in (off.children() if z3.is_app_of(off, z3.Z3_OP_BADD) else [off]):
        if z3.is_bv_value(t):
            c += t.as_signed_long()
            continue
        k = 1
        if z3.is_app_of(t, z3.Z3_OP_BMUL) and z3.is_bv_value(t.arg(0)):
            k = t.arg(0).as_signed_long()
            t = t.arg(1) if t.num_args() == 2 else None
        if t is None or k % sd:
            raise ToolLimit('offset into an array of elements of %d octets is not a multiple of their size: %s' % (sd, str(off)[:200]))
        out.append(bv(k // sd) * t)
    i = bv(c // sd)
    for t in out:
        i = i + t
    return simp(i), c % sd


class Outcomes:
    """several continuations of one call: items = [(state, 'ret'|'throw'|'end'|'call', value)]"""

    def __init__(self, items):
        self.items = items


INLINE = object()
