"""LLVM bitcode -> plain Python structures, through the LLVM-C API of libLLVM-18.

Nothing is interpreted here: every instruction of every reachable function is
carried over with its operands; types are reduced to sizes and layouts computed
by LLVM's own data layout.
"""
import ctypes as C

_L = C.CDLL("libLLVM-18.so")
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


U = C.c_uint
S = C.c_char_p
ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(S))
ParseBitcode = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
GetValueName2 = _f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", U, P)
GetParams = _f("LLVMGetParams", None, P, C.POINTER(P))
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
GetConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetNumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", C.c_int, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
GetElementType = _f("LLVMGetElementType", P, P)
GetArrayLength = _f("LLVMGetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("LLVMGetVectorSize", U, P)
CountStructElts = _f("LLVMCountStructElementTypes", U, P)
StructGetType = _f("LLVMStructGetTypeAtIndex", P, P, U)
GetStructName = _f("LLVMGetStructName", S, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstIntZExt = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetAggElement = _f("LLVMGetAggregateElement", P, P, U)
IsAConstantDataSequential = _f("LLVMIsAConstantDataSequential", P, P)
IsConstantString = _f("LLVMIsConstantString", C.c_int, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
GetICmp = _f("LLVMGetICmpPredicate", C.c_int, P)
GetFCmp = _f("LLVMGetFCmpPredicate", C.c_int, P)
GetNSW = _f("LLVMGetNSW", C.c_int, P)
GetNUW = _f("LLVMGetNUW", C.c_int, P)
GetExact = _f("LLVMGetExact", C.c_int, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
GetAllocTy = _f("LLVMGetAllocatedType", P, P)
GetNumArgs = _f("LLVMGetNumArgOperands", U, P)
GetCalled = _f("LLVMGetCalledValue", P, P)
GetCalledFTy = _f("LLVMGetCalledFunctionType", P, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncVal = _f("LLVMGetIncomingValue", P, P, U)
IncBB = _f("LLVMGetIncomingBlock", P, P, U)
NumIndices = _f("LLVMGetNumIndices", U, P)
Indices = _f("LLVMGetIndices", C.POINTER(U), P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
GetSucc = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
GetCondition = _f("LLVMGetCondition", P, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P)
DbgFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_uint64, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_uint64, P, P, U)
GetParamTypes = _f("LLVMGetParamTypes", None, P, C.POINTER(P))
CountParamTypes = _f("LLVMCountParamTypes", U, P)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
NumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
GetEnumKind = _f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
GetCallAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
GetAttrAt = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
GetTypeAttrValue = _f("LLVMGetTypeAttributeValue", P, P)
GetMaskValue = _f("LLVMGetMaskValue", C.c_int, P, U)
NumMask = _f("LLVMGetNumMaskElements", U, P)

OPS = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 68: 'freeze', 67: 'callbr'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord',
        8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = ['xchg', 'add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min', 'umax', 'umin', 'fadd',
       'fsub']


class Ty:
    __slots__ = ('kind', 'width', 'size', 'store', 'align', 'elems', 'offs', 'elt', 'n', 'name')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        if self.kind == 'struct':
            return self.name or '{...}'
        return self.kind


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'dst', 'x', 'line', 'file', 'idx')

    def __repr__(self):
        return '<%s %s>' % (self.op, self.dst)


class Block:
    __slots__ = ('name', 'idx', 'phis', 'insts', 'succ', 'fn')


class Func:
    __slots__ = ('name', 'params', 'ptys', 'blocks', 'rty', 'decl', 'sret', 'nregs', 'rpo',
                 'loops', 'backedges', 'variadic', '_v', 'loop_of', 'loop_bodies', 'byval', 'regty')


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf = P()
        msg = S()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise IOError(msg.value)
        m = P()
        if ParseBitcode(ctx, buf, C.byref(m)):
            raise IOError('cannot parse bitcode ' + path)
        self.m = m
        self.dl = DataLayout(m)
        self.tys = {}
        self.funcs = {}
        self.globals = {}
        self._gv = {}
        self.k_sret = GetEnumKind(b'sret', 4)
        self.k_byval = GetEnumKind(b'byval', 5)
        f = GetFirstFunction(m)
        while f:
            n = self.vname(f)
            fn = Func()
            fn._v = f
            fn.name = n
            fn.decl = bool(IsDeclaration(f))
            fn.blocks = None
            self.funcs[n] = fn
            self._gv[f] = ('fn', n)
            f = GetNextFunction(f)
        g = GetFirstGlobal(m)
        while g:
            n = self.vname(g)
            self.globals[n] = g
            self._gv[g] = ('gl', n)
            g = GetNextGlobal(g)
        self.aliases = {}
        a = GetFirstAlias(m)
        while a:
            self._gv[a] = ('alias', a)
            self.aliases[self.vname(a)] = a
            a = GetNextAlias(a)

    def vname(self, v):
        ln = C.c_size_t()
        return GetValueName2(v, C.byref(ln)).decode()

    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        k = GetTypeKind(t)
        r = Ty()
        self.tys[t] = r
        r.name = None
        r.width = 0
        r.elems = r.offs = r.elt = None
        r.n = 0
        if k == 0:
            r.kind = 'void'
            r.size = r.store = r.align = 0
            return r
        if k == 7:
            r.kind = 'label'
            return r
        if k in (15, 16):
            r.kind = 'token'
            return r
        if k == 9:
            r.kind = 'func'
            r.size = r.store = r.align = 1
            return r
        if k == 14 or k == 18:
            r.kind = 'meta'
            return r
        if k == 10:
            nm = GetStructName(t)
            r.name = nm.decode() if nm else None
            r.kind = 'struct'
            try:
                n = CountStructElts(t)
            except Exception:
                n = 0
            r.n = n
            r.elems = [self.ty(StructGetType(t, i)) for i in range(n)]
            if any(e.kind == 'struct' and e.size is None for e in r.elems):
                r.size = None
                return r
            from_opaque = _f("LLVMIsOpaqueStruct", C.c_int, P)
            if from_opaque(t):
                r.size = r.store = None
                r.align = 1
                return r
            r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
        elif k == 8:
            r.kind = 'int'
            r.width = GetIntTypeWidth(t)
        elif k == 11:
            r.kind = 'array'
            r.elt = self.ty(GetElementType(t))
            r.n = GetArrayLength(t)
        elif k == 12:
            r.kind = 'ptr'
            r.width = 64
        elif k == 13:
            r.kind = 'vector'
            r.elt = self.ty(GetElementType(t))
            r.n = GetVectorSize(t)
        elif k == 2:
            r.kind = 'float'
            r.width = 32
        elif k == 3:
            r.kind = 'double'
            r.width = 64
        elif k in (1, 4, 5, 6):
            r.kind = 'fpother'
            r.width = 80
        else:
            r.kind = 'other%d' % k
            r.size = r.store = 0
            r.align = 1
            return r
        r.size = ABISize(self.dl, t)
        r.store = StoreSize(self.dl, t)
        r.align = ABIAlign(self.dl, t)
        return r

    # ---- constants -------------------------------------------------------
    def const(self, v):
        """Operand descriptor for a constant: ('i',width,val) ('p0',) ('g',name)
        ('gep',base,off) ('u',ty) ('agg',ty,[..]) ('z',ty) ('f',ty,val) ('s',bytes) ..."""
        if v in self._gv:
            kd, n = self._gv[v]
            if kd == 'alias':
                return self.const(AliasGetAliasee(v))
            return ('fn', n) if kd == 'fn' else ('gl', n)
        k = GetValueKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: Argument0 BB1 MemoryUse2 Def3 Phi4 Function5 GlobalAlias6 IFunc7 GlobalVar8
        # BlockAddress9 ConstantExpr10 ConstantArray11 Struct12 Vector13 Undef14 AggZero15
        # DataArray16 DataVector17 Int18 FP19 PointerNull20 TokenNone21 Metadata22 InlineAsm23
        # Instruction24 Poison25 TargetNone26
        if k == 18:
            if t.width <= 64:
                return ('i', t.width, ConstIntZExt(v))
            pr = _f("LLVMPrintValueToString", P, P)
            s = C.string_at(pr(v)).decode()
            return ('i', t.width, int(s.split()[-1]) & ((1 << t.width) - 1))
        if k == 20:
            return ('p0',)
        if k in (14, 25):
            return ('u', t)
        if k == 15:
            return ('z', t)
        if k == 19:
            li = C.c_int()
            return ('f', t, ConstRealGetDouble(v, C.byref(li)))
        if k == 16:
            if IsConstantString(v):
                ln = C.c_size_t()
                p = GetAsString(v, C.byref(ln))
                return ('s', C.string_at(p, ln.value))
            return ('agg', t, [self.const(GetAggElement(v, i)) for i in range(t.n)])
        if k in (11, 12, 13, 17):
            return ('agg', t, [self.const(GetAggElement(v, i)) for i in range(t.n)])
        if k == 10:
            op = OPS.get(GetConstOpcode(v))
            ops = [self.const(GetOperand(v, i)) for i in range(GetNumOperands(v))]
            if op == 'gep':
                off = self.gep_const_off(v, ops)
                return ('cgep', ops[0], off)
            return ('cexpr', op, t, ops)
        if k == 23:
            return ('asm',)
        if k == 22:
            return ('meta',)
        if k == 9:
            return ('blockaddr',)
        if k == 21:
            return ('none',)
        raise ValueError('constant kind %d' % k)

    def gep_const_off(self, v, ops):
        off, terms = self.gep_layout(v)
        for i, sc in terms:
            o = ops[i]
            val = o[2]
            if val >> (o[1] - 1):
                val -= 1 << o[1]
            off += val * sc
        return off

    def gep_layout(self, v):
        """constant offset + [(operand index, scale)] for non-struct indices."""
        t = self.ty(GEPSrcTy(v))
        n = GetNumOperands(v)
        off = 0
        terms = []
        cur = t
        for i in range(1, n):
            o = GetOperand(v, i)
            isc = GetValueKind(o) == 18
            if i == 1:
                sc = cur.size
            elif cur.kind == 'struct':
                off += cur.offs[ConstIntZExt(o)]
                cur = cur.elems[ConstIntZExt(o)]
                continue
            else:
                cur = cur.elt
                sc = cur.size
            if isc:
                w = self.ty(TypeOf(o)).width
                val = ConstIntZExt(o)
                if val >> (w - 1):
                    val -= 1 << w
                off += val * sc
            else:
                terms.append((i, sc))
        return off, terms

    # ---- functions -------------------------------------------------------
    def func(self, name):
        fn = self.funcs[name]
        if fn.blocks is None and not fn.decl:
            self._load(fn)
        return fn

    def _load(self, fn):
        f = fn._v
        n = CountParams(f)
        arr = (P * n)()
        GetParams(f, arr)
        reg = {}
        fn.params = []
        fn.ptys = []
        fn.byval = []
        for i in range(n):
            reg[arr[i]] = i
            fn.params.append(i)
            fn.ptys.append(self.ty(TypeOf(arr[i])))
            a = GetAttrAt(f, i + 1, self.k_byval)
            fn.byval.append(self.ty(GetTypeAttrValue(a)) if a else None)
        nreg = n
        fn.sret = None
        a = GetAttrAt(f, 1, self.k_sret) if n else None
        if a:
            fn.sret = self.ty(GetTypeAttrValue(a))
        elif n > 1:
            a = GetAttrAt(f, 2, self.k_sret)
            if a:
                fn.sret = self.ty(GetTypeAttrValue(a))
        fty = GlobalGetValueType(f)
        fn.rty = self.ty(GetReturnType(fty))
        bbs = []
        b = GetFirstBB(f)
        bidx = {}
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            b = GetNextBB(b)
        lst = []
        for b in bbs:
            i = GetFirstInst(b)
            l = []
            while i:
                l.append(i)
                reg[i] = nreg
                nreg += 1
                i = GetNextInst(i)
            lst.append(l)
        fn.nregs = nreg
        fn.blocks = []
        fn.regty = list(fn.ptys)
        for l in lst:
            for i in l:
                fn.regty.append(self.ty(TypeOf(i)))
        lastline = 0
        lastfile = ''

        def opd(v):
            r = reg.get(v)
            if r is not None:
                return ('r', r)
            return self.const(v)

        for bi, l in enumerate(lst):
            B = Block()
            B.idx = bi
            B.fn = fn
            B.name = '%s#%d' % (fn.name, bi)
            B.phis = []
            B.insts = []
            B.succ = []
            for i in l:
                I = Inst()
                op = OPS.get(GetOpcode(i))
                if op is None:
                    raise ValueError('opcode %d' % GetOpcode(i))
                I.op = op
                I.ty = self.ty(TypeOf(i))
                I.dst = reg[i]
                I.x = None
                ln = DbgLine(i)
                if ln:
                    lastline = ln
                    u = U()
                    fp = DbgFile(i, C.byref(u))
                    lastfile = C.string_at(fp, u.value).decode() if fp else ''
                I.line = lastline
                I.file = lastfile
                if op == 'phi':
                    k = CountIncoming(i)
                    I.x = {bidx[IncBB(i, j)]: opd(IncVal(i, j)) for j in range(k)}
                    I.ops = ()
                    B.phis.append(I)
                    continue
                if op in ('call', 'invoke'):
                    na = GetNumArgs(i)
                    cal = GetCalled(i)
                    cv = opd(cal)
                    if cv[0] == 'fn' and (cv[1].startswith('llvm.dbg.') or
                                          cv[1].startswith('llvm.lifetime') or
                                          cv[1].startswith('llvm.experimental.noalias')):
                        continue
                    I.ops = [opd(GetOperand(i, j)) for j in range(na)]
                    dest = None
                    if op == 'invoke':
                        dest = (bidx[NormalDest(i)], bidx[UnwindDest(i)])
                        B.succ = list(dest)
                    bv = []
                    for j in range(na):
                        a = GetCallAttr(i, j + 1, self.k_byval)
                        bv.append(self.ty(GetTypeAttrValue(a)) if a else None)
                    aty = [self.ty(TypeOf(GetOperand(i, j))) for j in range(na)]
                    I.x = (cv, dest, bv, aty)
                elif op == 'br':
                    ns = NumSucc(i)
                    B.succ = [bidx[GetSucc(i, j)] for j in range(ns)]
                    if ns == 2:
                        I.ops = [opd(GetCondition(i))]
                    else:
                        I.ops = []
                elif op == 'switch':
                    k = GetNumOperands(i)
                    I.ops = [opd(GetOperand(i, 0))]
                    I.x = (bidx[ValueAsBB(GetOperand(i, 1))],
                           [(self.const(GetOperand(i, j))[2], bidx[ValueAsBB(GetOperand(i, j + 1))])
                            for j in range(2, k, 2)])
                    B.succ = [I.x[0]] + [b for _, b in I.x[1]]
                elif op == 'gep':
                    k = GetNumOperands(i)
                    I.ops = [opd(GetOperand(i, j)) for j in range(k)]
                    I.x = self.gep_layout(i)
                    I.x = (I.x[0], [(j, sc, self.ty(TypeOf(GetOperand(i, j))).width) for j, sc in I.x[1]],
                           self.ty(GEPSrcTy(i)))
                else:
                    k = GetNumOperands(i)
                    I.ops = [opd(GetOperand(i, j)) for j in range(k)]
                    if op == 'icmp':
                        I.x = (ICMP[GetICmp(i)], self.ty(TypeOf(GetOperand(i, 0))))
                    elif op == 'fcmp':
                        I.x = (FCMP[GetFCmp(i)], self.ty(TypeOf(GetOperand(i, 0))))
                    elif op == 'alloca':
                        I.x = self.ty(GetAllocTy(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        nn = NumIndices(i)
                        ix = Indices(i)
                        I.x = [ix[j] for j in range(nn)]
                    elif op == 'atomicrmw':
                        I.x = RMW[RMWOp(i)]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.x = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast',
                                'uitofp', 'sitofp', 'fptoui', 'fptosi', 'store', 'cmpxchg'):
                        I.x = self.ty(TypeOf(GetOperand(i, 0)))
                    elif op == 'landingpad':
                        I.x = (bool(IsCleanup(i)), NumClauses(i))
                    elif op == 'shufflevector':
                        I.x = ([GetMaskValue(i, j) for j in range(NumMask(i))],
                               self.ty(TypeOf(GetOperand(i, 0))))
                B.insts.append(I)
            fn.blocks.append(B)
        self._cfg(fn)

    def _cfg(self, fn):
        n = len(fn.blocks)
        # depth-first order; loops by dominators
        seen = [False] * n
        post = []
        st = [(0, iter(fn.blocks[0].succ))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in fn.blocks[b].succ:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in idom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        back = set()
        bodies = {}
        for b in rpo:
            for s in fn.blocks[b].succ:
                if num[s] <= num[b] and dom(s, b):
                    back.add((b, s))
                    body = bodies.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk.extend(preds[x])
        fn.backedges = back
        fn.loop_bodies = bodies
        # ordering in which every loop body is contiguous
        memb = {}
        for b in rpo:
            hs = [h for h in bodies if b in bodies[h]]
            hs.sort(key=lambda h: len(bodies[h]), reverse=True)
            memb[b] = hs
        fn.loop_of = memb
        order = []
        done = set()

        def emit(region_hdr, blocks):
            # topological order of 'blocks' (ignoring back edges to region_hdr), nested loops collapsed
            inner = [h for h in bodies if h in blocks and h != region_hdr and
                     not any(h in bodies[g] and g != h and g != region_hdr and g in blocks and
                             len(bodies[g]) > len(bodies[h]) for g in bodies)]
            rep = {}
            for b in blocks:
                rep[b] = b
                for h in inner:
                    if b in bodies[h]:
                        rep[b] = h
                        break
            succ = {}
            indeg = {}
            for b in blocks:
                indeg.setdefault(rep[b], 0)
                succ.setdefault(rep[b], set())
            for b in blocks:
                for s in fn.blocks[b].succ:
                    if s in blocks and s != region_hdr and rep[s] != rep[b]:
                        succ[rep[b]].add(rep[s])
            for b in succ:
                for s in succ[b]:
                    indeg[s] += 1
            ready = sorted([b for b in indeg if indeg[b] == 0], key=lambda b: num[b])
            left = set(indeg)
            while left:
                if not ready:
                    b = min(left, key=lambda b: num[b])   # irreducible: fall back to rpo
                else:
                    ready.sort(key=lambda b: num[b])
                    b = ready.pop(0)
                if b not in left:
                    continue
                left.discard(b)
                if b in inner:
                    emit(b, bodies[b])
                else:
                    order.append(b)
                for s in succ[b]:
                    indeg[s] -= 1
                    if indeg[s] == 0 and s in left:
                        ready.append(s)

        emit(None, set(rpo))
        fn.rpo = {b: i for i, b in enumerate(order)}
