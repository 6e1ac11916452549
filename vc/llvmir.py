"""Reader for LLVM bitcode/IR through the LLVM-18 C API (ctypes).

Functions are converted lazily to plain Python structures.  Nothing is dropped
except debug metadata and attributes."""
import ctypes as C
import os

_cands = ['/usr/lib/llvm-18/lib/libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so.1',
          '/usr/lib/llvm-18/lib/libLLVM.so', 'libLLVM-18.so', 'libLLVM.so.18.1']
L = None
for _c in _cands:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError('libLLVM 18 not found')

P = C.c_void_p
U = C.c_uint
_sigs = {
    'LLVMContextCreate': (P, []),
    'LLVMCreateMemoryBufferWithContentsOfFile': (C.c_int, [C.c_char_p, P, P]),
    'LLVMParseIRInContext': (C.c_int, [P, P, P, P]),
    'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
    'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
    'LLVMGetFirstGlobalAlias': (P, [P]), 'LLVMGetNextGlobalAlias': (P, [P]),
    'LLVMAliasGetAliasee': (P, [P]),
    'LLVMGetValueName2': (C.c_char_p, [P, P]),
    'LLVMIsDeclaration': (C.c_int, [P]),
    'LLVMCountParams': (U, [P]), 'LLVMGetParam': (P, [P, U]),
    'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
    'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
    'LLVMGetInstructionOpcode': (C.c_int, [P]),
    'LLVMGetNumOperands': (C.c_int, [P]), 'LLVMGetOperand': (P, [P, U]),
    'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (C.c_int, [P]),
    'LLVMGetIntTypeWidth': (U, [P]),
    'LLVMGetAllocatedType': (P, [P]),
    'LLVMGetGEPSourceElementType': (P, [P]),
    'LLVMGetICmpPredicate': (C.c_int, [P]), 'LLVMGetFCmpPredicate': (C.c_int, [P]),
    'LLVMGetCalledValue': (P, [P]), 'LLVMGetCalledFunctionType': (P, [P]),
    'LLVMGetNumArgOperands': (U, [P]),
    'LLVMGetNormalDest': (P, [P]), 'LLVMGetUnwindDest': (P, [P]),
    'LLVMCountIncoming': (U, [P]), 'LLVMGetIncomingValue': (P, [P, U]),
    'LLVMGetIncomingBlock': (P, [P, U]),
    'LLVMGetNumClauses': (U, [P]), 'LLVMGetClause': (P, [P, U]), 'LLVMIsCleanup': (C.c_int, [P]),
    'LLVMGetNumIndices': (U, [P]), 'LLVMGetIndices': (C.POINTER(U), [P]),
    'LLVMGetNumSuccessors': (U, [P]), 'LLVMGetSuccessor': (P, [P, U]),
    'LLVMIsConditional': (C.c_int, [P]),
    'LLVMGetSwitchDefaultDest': (P, [P]),
    'LLVMGetAtomicRMWBinOp': (C.c_int, [P]),
    'LLVMGetValueKind': (C.c_int, [P]),
    'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]),
    'LLVMGetConstOpcode': (C.c_int, [P]),
    'LLVMGetInitializer': (P, [P]), 'LLVMGlobalGetValueType': (P, [P]),
    'LLVMIsGlobalConstant': (C.c_int, [P]),
    'LLVMGetAsString': (P, [P, C.POINTER(C.c_size_t)]),
    'LLVMIsConstantString': (C.c_int, [P]),
    'LLVMGetAggregateElement': (P, [P, U]),
    'LLVMGetModuleDataLayout': (P, [P]),
    'LLVMABISizeOfType': (C.c_ulonglong, [P, P]), 'LLVMStoreSizeOfType': (C.c_ulonglong, [P, P]),
    'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, U]),
    'LLVMCountStructElementTypes': (U, [P]), 'LLVMStructGetTypeAtIndex': (P, [P, U]),
    'LLVMGetElementType': (P, [P]), 'LLVMGetArrayLength2': (C.c_ulonglong, [P]),
    'LLVMGetVectorSize': (U, [P]),
    'LLVMGetStructName': (C.c_char_p, [P]),
    'LLVMIsPackedStruct': (C.c_int, [P]),
    'LLVMPrintValueToString': (C.c_char_p, [P]),
    'LLVMPrintTypeToString': (C.c_char_p, [P]),
    'LLVMGetReturnType': (P, [P]),
    'LLVMBasicBlockAsValue': (P, [P]), 'LLVMValueAsBasicBlock': (P, [P]),
    'LLVMConstIntGetSExtValue': (C.c_longlong, [P]),
    'LLVMGetNumMaskElements': (U, [P]),
    'LLVMGetLinkage': (C.c_int, [P]),
    'LLVMGetEnumAttributeKindForName': (U, [C.c_char_p, C.c_size_t]),
    'LLVMGetCallSiteEnumAttribute': (P, [P, U, U]),
    'LLVMGetTypeAttributeValue': (P, [P]),
    'LLVMGetEnumAttributeAtIndex': (P, [P, U, U]), 'LLVMGetEnumAttributeValue': (C.c_ulonglong, [P]),
}
for _n, (_r, _a) in _sigs.items():
    f = getattr(L, _n)
    f.restype = _r
    f.argtypes = _a

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad',
       64: 'cleanuppad', 65: 'catchswitch'}
DEREF = L.LLVMGetEnumAttributeKindForName(b'dereferenceable', 15)
BYVAL = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
# type kinds
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 7: 'label', 8: 'int', 9: 'func', 10: 'struct',
      11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}


class Ty:
    __slots__ = ('kind', 'width', 'elems', 'n', 'size', 'offsets', 'name', 'ref')

    def __repr__(self):
        return '%s%s' % (self.kind, self.width or self.name or '')


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'x', 'id')

    def __repr__(self):
        return '%%%s = %s %s %s' % (self.id, self.op, self.ops, self.x)


class Block:
    __slots__ = ('id', 'insts', 'name')


class Function:
    __slots__ = ('name', 'dem', 'nparams', 'ptys', 'blocks', 'retty', 'byid', 'headers', 'preds', 'loops', 'deref')


class Module:
    def __init__(self, path):
        ctx = L.LLVMContextCreate()
        mb = P()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError('cannot read %s' % path)
        m = P()
        if L.LLVMParseIRInContext(ctx, mb, C.byref(m), C.byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.fnrefs = {}
        self.defs = set()
        self.globals = {}
        self.aliases = {}
        self.fcache = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.vname(f)
            self.fnrefs[n] = f
            if not L.LLVMIsDeclaration(f):
                self.defs.add(n)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self.vname(a)] = self.vname(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)

    def vname(self, v):
        n = C.c_size_t()
        s = L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ''

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Ty()
        r.ref = t
        self.types[t] = r
        k = TK.get(L.LLVMGetTypeKind(t), 'other')
        r.kind = k
        r.width = None
        r.elems = None
        r.n = None
        r.size = None
        r.offsets = None
        r.name = None
        if k == 'int':
            r.width = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 'struct':
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                if any(e.size is None for e in r.elems):
                    raise ValueError
                r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
                r.size = L.LLVMABISizeOfType(self.dl, t)
            except ValueError:
                if not r.elems and r.name is None:
                    r.size = 0
                    r.offsets = []
        elif k in ('array', 'vector'):
            e = self.ty(L.LLVMGetElementType(t))
            r.elems = [e]
            r.n = L.LLVMGetArrayLength2(t) if k == 'array' else L.LLVMGetVectorSize(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k in ('ptr', 'float', 'double', 'half', 'x86_fp80'):
            r.size = L.LLVMABISizeOfType(self.dl, t)
        if k == 'struct' and not r.elems and r.size is None:
            # opaque or empty
            s = L.LLVMPrintTypeToString(t).decode()
            if 'opaque' not in s:
                r.size = 0
                r.offsets = []
        return r

    def const(self, v):
        """Convert a non-instruction operand."""
        vk = L.LLVMGetValueKind(v)
        # LLVMValueKind: 0 Argument,1 BasicBlock,2 MemoryUse.. 5 Function,6 GlobalAlias,7 GlobalIFunc,8 GlobalVariable,
        # 9 BlockAddress,10 ConstantExpr,11 ConstantArray,12 ConstantStruct,13 ConstantVector,14 Undef,
        # 15 ConstantAggregateZero,16 ConstantDataArray,17 ConstantDataVector,18 ConstantInt,19 ConstantFP,
        # 20 ConstantPointerNull,21 ConstantTokenNone,22 MetadataAsValue,23 InlineAsm,24 Instruction,25 Poison
        t = self.ty(L.LLVMTypeOf(v))
        if vk == 5:
            return ('fn', self.vname(v))
        if vk == 8:
            return ('global', self.vname(v))
        if vk == 6:
            n = self.vname(v)
            while n in self.aliases:
                n = self.aliases[n]
            if n in self.fnrefs:
                return ('fn', n)
            return ('global', n)
        if vk == 18:
            w = t.width
            if w <= 64:
                return ('int', w, L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1))
            s = L.LLVMPrintValueToString(v).decode().split()[-1]
            return ('int', w, int(s) & ((1 << w) - 1))
        if vk == 20:
            return ('null',)
        if vk in (14, 25):
            return ('undef', t)
        if vk == 15:
            return ('zero', t)
        if vk in (16, 17):
            n = t.n
            return ('agg', t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if vk in (11, 12, 13):
            n = t.n if t.kind != 'struct' else len(t.elems)
            return ('agg', t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if vk == 19:
            return ('fp', t, L.LLVMPrintValueToString(v).decode().split()[-1])
        if vk == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'getelementptr':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            elif op == 'icmp':
                x = ICMP[L.LLVMGetICmpPredicate(v)]
            return ('cexpr', op, t, ops, x)
        if vk == 22:
            return ('meta',)
        if vk == 23:
            return ('asm', L.LLVMPrintValueToString(v).decode())
        return ('other', vk)

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None:
            return None, None
        t = self.ty(L.LLVMGlobalGetValueType(g))
        if L.LLVMIsDeclaration(g):
            return t, None
        i = L.LLVMGetInitializer(g)
        if L.LLVMGetValueKind(i) == 16 and L.LLVMIsConstantString(i):
            n = C.c_size_t()
            p = L.LLVMGetAsString(i, C.byref(n))
            return t, ('str', C.string_at(p, n.value))
        return t, self.const(i)

    def global_is_const(self, name):
        g = self.globals.get(name)
        return bool(g and L.LLVMIsGlobalConstant(g))

    def body_text(self, name):
        return L.LLVMPrintValueToString(self.fnrefs[name]).decode()

    def has_body(self, name):
        return name in self.defs

    def func(self, name):
        f = self.fcache.get(name)
        if f is not None:
            return f
        ref = self.fnrefs.get(name)
        if ref is None or name not in self.defs:
            return None
        f = Function()
        f.name = name
        f.dem = None
        f.nparams = L.LLVMCountParams(ref)
        vid = {}
        f.ptys = []
        for i in range(f.nparams):
            p = L.LLVMGetParam(ref, i)
            vid[p] = ('v', 'a%d' % i)
            f.ptys.append(self.ty(L.LLVMTypeOf(p)))
        f.deref = []
        for i in range(f.nparams):
            at = L.LLVMGetEnumAttributeAtIndex(ref, i + 1, DEREF)
            f.deref.append(int(L.LLVMGetEnumAttributeValue(at)) if at else 0)
        bbs = []
        bbid = {}
        b = L.LLVMGetFirstBasicBlock(ref)
        while b:
            bbid[b] = len(bbs)
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        raw = []
        n = 0
        for b in bbs:
            i = L.LLVMGetFirstInstruction(b)
            lst = []
            while i:
                vid[i] = ('v', n)
                lst.append((i, n))
                n += 1
                i = L.LLVMGetNextInstruction(i)
            raw.append(lst)
        vab = {}
        for b, k in bbid.items():
            vab[L.LLVMBasicBlockAsValue(b)] = k

        def opnd(v):
            r = vid.get(v)
            if r is not None:
                return r
            if v in vab:
                return ('bb', vab[v])
            return self.const(v)
        f.blocks = []
        for bi, lst in enumerate(raw):
            blk = Block()
            blk.id = bi
            blk.insts = []
            for ref_i, k in lst:
                I = Inst()
                I.id = k
                I.op = OPC[L.LLVMGetInstructionOpcode(ref_i)]
                I.ty = self.ty(L.LLVMTypeOf(ref_i))
                I.x = None
                op = I.op
                if op == 'phi':
                    nin = L.LLVMCountIncoming(ref_i)
                    I.ops = []
                    I.x = {}
                    for q in range(nin):
                        I.x[bbid[L.LLVMGetIncomingBlock(ref_i, q)]] = opnd(L.LLVMGetIncomingValue(ref_i, q))
                elif op in ('call', 'invoke'):
                    cv = L.LLVMGetCalledValue(ref_i)
                    na = L.LLVMGetNumArgOperands(ref_i)
                    I.ops = [opnd(L.LLVMGetOperand(ref_i, q)) for q in range(na)]
                    x = {'callee': opnd(cv), 'atys': [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(ref_i, q))) for q in range(na)]}
                    bv = {}
                    for q in range(na):
                        at = L.LLVMGetCallSiteEnumAttribute(ref_i, q + 1, BYVAL)
                        if at:
                            bv[q] = self.ty(L.LLVMGetTypeAttributeValue(at)).size
                    x['byval'] = bv
                    if op == 'invoke':
                        x['normal'] = bbid[L.LLVMGetNormalDest(ref_i)]
                        x['unwind'] = bbid[L.LLVMGetUnwindDest(ref_i)]
                    I.x = x
                elif op == 'br':
                    ns = L.LLVMGetNumSuccessors(ref_i)
                    I.x = [bbid[L.LLVMGetSuccessor(ref_i, q)] for q in range(ns)]
                    I.ops = [opnd(L.LLVMGetOperand(ref_i, 0))] if ns == 2 else []
                elif op == 'switch':
                    no = L.LLVMGetNumOperands(ref_i)
                    I.ops = [opnd(L.LLVMGetOperand(ref_i, 0))]
                    cases = []
                    for q in range(2, no, 2):
                        cases.append((opnd(L.LLVMGetOperand(ref_i, q)), opnd(L.LLVMGetOperand(ref_i, q + 1))[1]))
                    I.x = (opnd(L.LLVMGetOperand(ref_i, 1))[1], cases)
                else:
                    no = L.LLVMGetNumOperands(ref_i)
                    I.ops = [opnd(L.LLVMGetOperand(ref_i, q)) for q in range(no)]
                    if op == 'icmp':
                        I.x = ICMP[L.LLVMGetICmpPredicate(ref_i)]
                    elif op == 'fcmp':
                        I.x = L.LLVMGetFCmpPredicate(ref_i)
                    elif op == 'alloca':
                        I.x = self.ty(L.LLVMGetAllocatedType(ref_i))
                    elif op == 'getelementptr':
                        I.x = self.ty(L.LLVMGetGEPSourceElementType(ref_i))
                    elif op in ('extractvalue', 'insertvalue'):
                        ni = L.LLVMGetNumIndices(ref_i)
                        p = L.LLVMGetIndices(ref_i)
                        I.x = [p[q] for q in range(ni)]
                    elif op == 'atomicrmw':
                        I.x = RMW.get(L.LLVMGetAtomicRMWBinOp(ref_i))
                    elif op == 'landingpad':
                        nc = L.LLVMGetNumClauses(ref_i)
                        I.x = (bool(L.LLVMIsCleanup(ref_i)), [self.const(L.LLVMGetClause(ref_i, q)) for q in range(nc)])
                        I.ops = []
                    elif op == 'store':
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(ref_i, 0)))
                    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'ret',
                                'uitofp', 'sitofp', 'fptoui', 'fptosi'):
                        if no:
                            I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(ref_i, 0)))
                blk.insts.append(I)
            f.blocks.append(blk)
        self._loops(f)
        self.fcache[name] = f
        return f

    def _succ(self, blk):
        t = blk.insts[-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [c[1] for c in t.x[1]]
        if t.op == 'invoke':
            return [t.x['normal'], t.x['unwind']]
        return []

    def _loops(self, f):
        """Natural-loop headers (targets of DFS back edges) and their bodies."""
        n = len(f.blocks)
        succ = [self._succ(b) for b in f.blocks]
        preds = [[] for _ in range(n)]
        for a in range(n):
            for b in succ[a]:
                preds[b].append(a)
        f.preds = preds
        color = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                st.pop()
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds[x])
        f.loops = loops
        f.headers = set(loops)
