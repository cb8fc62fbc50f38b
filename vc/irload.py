"""Loads LLVM bitcode/IR through libLLVM's C API into plain Python objects.

Nothing here interprets the program; it only mirrors the module's structure.
Function bodies are converted lazily, the first time they are executed.
"""
import ctypes as C
import re

_L = C.CDLL("libLLVM.so.18.1")
P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U = C.c_uint
S = C.c_char_p
CreateMemBuf = _fn("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(S))
ParseIR = _fn("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(S))
ContextCreate = _fn("LLVMContextCreate", P)
FirstFunction = _fn("LLVMGetFirstFunction", P, P)
NextFunction = _fn("LLVMGetNextFunction", P, P)
FirstGlobal = _fn("LLVMGetFirstGlobal", P, P)
NextGlobal = _fn("LLVMGetNextGlobal", P, P)
FirstAlias = _fn("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _fn("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _fn("LLVMAliasGetAliasee", P, P)
ValueName = _fn("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
IsDeclaration = _fn("LLVMIsDeclaration", C.c_int, P)
CountParams = _fn("LLVMCountParams", U, P)
GetParam = _fn("LLVMGetParam", P, P, U)
FirstBB = _fn("LLVMGetFirstBasicBlock", P, P)
NextBB = _fn("LLVMGetNextBasicBlock", P, P)
FirstInst = _fn("LLVMGetFirstInstruction", P, P)
NextInst = _fn("LLVMGetNextInstruction", P, P)
GetOpcode = _fn("LLVMGetInstructionOpcode", C.c_int, P)
GetConstOpcode = _fn("LLVMGetConstOpcode", C.c_int, P)
NumOperands = _fn("LLVMGetNumOperands", C.c_int, P)
GetOperand = _fn("LLVMGetOperand", P, P, U)
TypeOf = _fn("LLVMTypeOf", P, P)
TypeKind = _fn("LLVMGetTypeKind", C.c_int, P)
IntWidth = _fn("LLVMGetIntTypeWidth", U, P)
ArrayLength = _fn("LLVMGetArrayLength2", C.c_uint64, P)
VectorSize = _fn("LLVMGetVectorSize", U, P)
ElementType = _fn("LLVMGetElementType", P, P)
CountStruct = _fn("LLVMCountStructElementTypes", U, P)
StructElem = _fn("LLVMStructGetTypeAtIndex", P, P, U)
ValueKind = _fn("LLVMGetValueKind", C.c_int, P)
ZExtValue = _fn("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
PrintValue = _fn("LLVMPrintValueToString", P, P)
DisposeMessage = _fn("LLVMDisposeMessage", None, P)
GetInitializer = _fn("LLVMGetInitializer", P, P)
IsGlobalConstant = _fn("LLVMIsGlobalConstant", C.c_int, P)
IsThreadLocal = _fn("LLVMIsThreadLocal", C.c_int, P)
GlobalValueType = _fn("LLVMGlobalGetValueType", P, P)
GetAlignment = _fn("LLVMGetAlignment", U, P)
AllocatedType = _fn("LLVMGetAllocatedType", P, P)
GEPSourceType = _fn("LLVMGetGEPSourceElementType", P, P)
CalledValue = _fn("LLVMGetCalledValue", P, P)
NumArgOperands = _fn("LLVMGetNumArgOperands", U, P)
NormalDest = _fn("LLVMGetNormalDest", P, P)
UnwindDest = _fn("LLVMGetUnwindDest", P, P)
NumSuccessors = _fn("LLVMGetNumSuccessors", U, P)
GetSuccessor = _fn("LLVMGetSuccessor", P, P, U)
IsConditional = _fn("LLVMIsConditional", C.c_int, P)
GetCondition = _fn("LLVMGetCondition", P, P)
CountIncoming = _fn("LLVMCountIncoming", U, P)
IncomingValue = _fn("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _fn("LLVMGetIncomingBlock", P, P, U)
GetNumIndices = _fn("LLVMGetNumIndices", U, P)
GetIndices = _fn("LLVMGetIndices", C.POINTER(C.c_uint), P)
ICmpPred = _fn("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _fn("LLVMGetFCmpPredicate", C.c_int, P)
NumClauses = _fn("LLVMGetNumClauses", U, P)
GetClause = _fn("LLVMGetClause", P, P, U)
IsCleanup = _fn("LLVMIsCleanup", C.c_int, P)
RMWOp = _fn("LLVMGetAtomicRMWBinOp", C.c_int, P)
GetWeak = _fn("LLVMGetWeak", C.c_int, P)
GetOrdering = _fn("LLVMGetOrdering", C.c_int, P)
GetCmpXchgSucc = _fn("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
GetCmpXchgFail = _fn("LLVMGetCmpXchgFailureOrdering", C.c_int, P)
GetNSW = _fn("LLVMGetNSW", C.c_int, P)
GetNUW = _fn("LLVMGetNUW", C.c_int, P)
GetExact = _fn("LLVMGetExact", C.c_int, P)
NumMask = _fn("LLVMGetNumMaskElements", U, P)
MaskValue = _fn("LLVMGetMaskValue", C.c_int, P, U)
DebugLine = _fn("LLVMGetDebugLocLine", U, P)
DebugFile = _fn("LLVMGetDebugLocFilename", S, P, C.POINTER(U))
GetModuleDataLayout = _fn("LLVMGetModuleDataLayout", P, P)
ABISize = _fn("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _fn("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ABIAlign = _fn("LLVMABIAlignmentOfType", U, P, P)
OffsetOfElement = _fn("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
IsPoison = _fn("LLVMIsPoison", C.c_int, P)
AggElem = _fn("LLVMGetAggregateElement", P, P, U)
GetAsString = _fn("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
IsConstantString = _fn("LLVMIsConstantString", C.c_int, P)
AttrKind = _fn("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
GetEnumAttrAt = _fn("LLVMGetEnumAttributeAtIndex", P, P, U, U)
GetTypeAttrValue = _fn("LLVMGetTypeAttributeValue", P, P)
BlockAsValue = _fn("LLVMBasicBlockAsValue", P, P)
RunPasses = _fn("LLVMRunPasses", P, P, S, P, P)
CreatePBO = _fn("LLVMCreatePassBuilderOptions", P)
GetErrorMessage = _fn("LLVMGetErrorMessage", S, P)
SwitchDefault = _fn("LLVMGetSwitchDefaultDest", P, P)
GetFunctionType = _fn("LLVMGetCalledFunctionType", P, P)
ReturnType = _fn("LLVMGetReturnType", P, P)
HasPersonality = _fn("LLVMHasPersonalityFn", C.c_int, P)
FunctionLine = _fn("LLVMGetSubprogram", P, P)

OPN = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv',
       15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi',
       35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt',
        39: 'sge', 40: 'slt', 41: 'sle'}
RMW = ['xchg', 'add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min', 'umax', 'umin']

# LLVMValueKind values
(VK_ARG, VK_BB, _u1, _u2, _u3, VK_FN, VK_ALIAS, VK_IFUNC, VK_GVAR, VK_BADDR, VK_CE,
 VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAZ, VK_CDA, VK_CDV, VK_CINT, VK_CFP,
 VK_NULL, VK_TOKNONE, VK_MD, VK_ASM, VK_INST, VK_POISON, VK_TGTNONE) = range(27)


class Type:
    __slots__ = ('kind', 'bits', 'n', 'elem', 'elems', 'offs', 'size', 'store', 'align')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind in ('array', 'vec'):
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return '{%s}' % ', '.join(map(repr, self.elems))
        return self.kind


class Const:
    """A constant operand: kind + payload; evaluated lazily by the executor."""
    __slots__ = ('kind', 'ty', 'v', 'cache')

    def __init__(self, kind, ty, v):
        self.kind, self.ty, self.v = kind, ty, v
        self.cache = None

    def __repr__(self):
        return 'Const(%s,%r)' % (self.kind, self.v)


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'dst', 'x', 'line', 'file', 'fn', 'bb')

    def __repr__(self):
        return '%%%s = %s %r %r' % (self.dst, self.op, self.ops, self.x)


class Block:
    __slots__ = ('idx', 'insts', 'fn', 'preds', 'succs', 'nphi')


class Function:
    __slots__ = ('name', 'ref', 'decl', 'mod', '_blocks', 'nargs', 'nslots', 'argtys', 'retty',
                 'byval', 'loops', 'variadic_seen', 'idom')

    def __repr__(self):
        return '@' + self.name

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._load_body(self)
        return self._blocks


class GVar:
    __slots__ = ('name', 'ref', 'ty', 'const', 'init', 'align', 'tls', 'decl')

    def __repr__(self):
        return '@' + self.name


class Module:
    def __init__(self, path, passes=None):
        ctx = ContextCreate()
        buf, err = P(), S()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseIR(ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        if passes:
            pbo = CreatePBO()
            e = RunPasses(m, passes.encode(), None, pbo)
            if e:
                raise RuntimeError(GetErrorMessage(e))
        self.dl = GetModuleDataLayout(m)
        self._types = {}
        self._consts = {}
        self.functions = {}
        self.by_ref = {}
        self.globals = {}
        self.gv_by_ref = {}
        self.aliases = {}
        self._byval_kind = AttrKind(b"byval", 5)
        f = FirstFunction(m)
        while f:
            F = Function()
            F.name = self._name(f)
            F.ref = f
            F.decl = bool(IsDeclaration(f))
            F.mod = self
            F._blocks = None
            F.nargs = CountParams(f)
            F.loops = None
            F.idom = None
            F.argtys = [self.type(TypeOf(GetParam(f, i))) for i in range(F.nargs)]
            F.byval = [None] * F.nargs
            for i in range(F.nargs):
                a = GetEnumAttrAt(f, i + 1, self._byval_kind)
                if a:
                    F.byval[i] = self.type(GetTypeAttrValue(a))
            F.retty = self.type(ReturnType(GlobalValueType(f)))
            self.functions[F.name] = F
            self.by_ref[f] = F
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            G = GVar()
            G.name = self._name(g)
            G.ref = g
            G.ty = self.type(GlobalValueType(g))
            G.const = bool(IsGlobalConstant(g))
            G.tls = bool(IsThreadLocal(g))
            G.align = GetAlignment(g) or (G.ty.align if G.ty.align else 1)
            G.decl = bool(IsDeclaration(g))
            G.init = None
            self.globals[G.name] = G
            self.gv_by_ref[g] = G
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            self.aliases[a] = AliasGetAliasee(a)
            t = self.by_ref.get(AliasGetAliasee(a))
            if t is not None:
                self.functions[self._name(a)] = t
            a = NextAlias(a)

    def initializer(self, G):
        if G.init is None:
            i = GetInitializer(G.ref)
            G.init = self.const(i) if i else False
        return G.init or None

    def _name(self, v):
        n = C.c_size_t()
        return ValueName(v, C.byref(n)).decode()

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        T = Type()
        k = TypeKind(t)
        T.bits = T.n = T.elem = T.elems = T.offs = None
        T.size = T.store = T.align = None
        self._types[t] = T
        sized = True
        if k == 8:
            T.kind = 'int'
            T.bits = IntWidth(t)
        elif k == 12:
            T.kind = 'ptr'
            T.bits = 64
        elif k == 0:
            T.kind = 'void'
            sized = False
        elif k == 10:
            T.kind = 'struct'
            T.elems = [self.type(StructElem(t, i)) for i in range(CountStruct(t))]
            try:
                T.offs = [OffsetOfElement(self.dl, t, i) for i in range(len(T.elems))]
            except Exception:
                sized = False
        elif k == 11:
            T.kind = 'array'
            T.n = ArrayLength(t)
            T.elem = self.type(ElementType(t))
        elif k == 13:
            T.kind = 'vec'
            T.n = VectorSize(t)
            T.elem = self.type(ElementType(t))
        elif k == 2:
            T.kind = 'fp'
            T.bits = 32
        elif k == 3:
            T.kind = 'fp'
            T.bits = 64
        elif k == 4:
            T.kind = 'fp'
            T.bits = 80
        else:
            T.kind = 'k%d' % k
            sized = False
        if sized:
            T.size = ABISize(self.dl, t)
            T.store = StoreSize(self.dl, t)
            T.align = ABIAlign(self.dl, t)
        return T

    def _print(self, v):
        p = PrintValue(v)
        s = C.cast(p, S).value.decode()
        DisposeMessage(p)
        return s

    def const(self, v):
        c = self._consts.get(v)
        if c is None:
            c = self._consts[v] = self._const(v)
        return c

    def _const(self, v):
        k = ValueKind(v)
        if k == VK_ALIAS:
            return self.const(self.aliases[v])
        ty = None if k in (VK_MD, VK_ASM) else self.type(TypeOf(v))
        if k == VK_CINT:
            if ty.bits <= 64:
                return Const('int', ty, ZExtValue(v))
            s = self._print(v).split()[-1]
            return Const('int', ty, int(s) % (1 << ty.bits))
        if k == VK_NULL:
            return Const('null', ty, None)
        if k in (VK_UNDEF, VK_POISON):
            return Const('undef', ty, None)
        if k == VK_FN:
            return Const('fn', ty, self.by_ref[v])
        if k == VK_GVAR:
            return Const('gvar', ty, self.gv_by_ref[v])
        if k == VK_CAZ:
            return Const('zero', ty, None)
        if k in (VK_CARR, VK_CSTRUCT, VK_CVEC):
            n = ty.n if ty.kind != 'struct' else len(ty.elems)
            return Const('agg', ty, [self.const(AggElem(v, i)) for i in range(n)])
        if k in (VK_CDA, VK_CDV):
            if ty.kind == 'array' and ty.elem.kind == 'int' and ty.elem.bits == 8 and IsConstantString(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                return Const('bytes', ty, p[:n.value])
            return Const('agg', ty, [self.const(AggElem(v, i)) for i in range(ty.n)])
        if k == VK_CFP:
            return Const('fp', ty, self._print(v).split()[-1])
        if k == VK_CE:
            op = OPN.get(GetConstOpcode(v))
            ops = [self.const(GetOperand(v, i)) for i in range(NumOperands(v))]
            x = None
            if op == 'gep':
                x = self.type(GEPSourceType(v))
            elif op == 'icmp':
                x = PRED[ICmpPred(v)]
            return Const('expr', ty, (op, ops, x))
        if k == VK_MD:
            return Const('md', None, None)
        if k == VK_ASM:
            return Const('asm', None, None)
        return Const('unknown', ty, self._print(v))

    def _load_body(self, F):
        slots = {}
        for i in range(F.nargs):
            slots[GetParam(F.ref, i)] = i
        n = F.nargs
        bbs = []
        bbidx = {}
        b = FirstBB(F.ref)
        while b:
            B = Block()
            B.idx = len(bbs)
            B.fn = F
            B.insts = []
            B.preds = []
            bbidx[b] = B.idx
            # blocks as values may have another address
            bbidx[BlockAsValue(b)] = B.idx
            il = []
            i = FirstInst(b)
            while i:
                il.append(i)
                i = NextInst(i)
            bbs.append((B, il))
            b = NextBB(b)
        for B, il in bbs:
            for i in il:
                slots[i] = n
                n += 1
        F.nslots = n

        def opnd(v):
            s = slots.get(v)
            if s is not None:
                return s
            return self.const(v)

        length = C.c_uint()
        for B, il in bbs:
            nphi = 0
            for i in il:
                I = Inst()
                code = GetOpcode(i)
                op = OPN.get(code, 'op%d' % code)
                I.op = op
                I.ty = self.type(TypeOf(i))
                I.dst = slots[i]
                I.x = None
                I.fn = F
                I.bb = B.idx
                I.line = DebugLine(i)
                I.file = None
                if I.line:
                    fl = DebugFile(i, C.byref(length))
                    I.file = fl.decode() if fl else None
                if op == 'call' or op == 'invoke':
                    cv = CalledValue(i)
                    na = NumArgOperands(i)
                    vk = ValueKind(cv)
                    if vk == VK_FN and self.by_ref[cv].name.startswith('llvm.dbg.'):
                        continue
                    I.ops = [opnd(GetOperand(i, j)) for j in range(na)]
                    bv = None
                    tys = [None] * na
                    for j in range(na):
                        o = GetOperand(i, j)
                        if ValueKind(o) != VK_MD:
                            tys[j] = self.type(TypeOf(o))
                    I.x = {'callee': opnd(cv), 'tys': tys}
                    if op == 'invoke':
                        I.x['normal'] = bbidx[NormalDest(i)]
                        I.x['unwind'] = bbidx[UnwindDest(i)]
                elif op == 'br':
                    I.ops = []
                    if IsConditional(i):
                        I.ops = [opnd(GetCondition(i))]
                    I.x = [bbidx[GetSuccessor(i, j)] for j in range(NumSuccessors(i))]
                elif op == 'switch':
                    no = NumOperands(i)
                    I.ops = [opnd(GetOperand(i, 0))]
                    cases = []
                    for j in range(2, no, 2):
                        cases.append((self.const(GetOperand(i, j)).v, bbidx[GetOperand(i, j + 1)]))
                    w = self.type(TypeOf(GetOperand(i, 0))).bits
                    I.x = (cases, bbidx[SwitchDefault(i)], w)
                elif op == 'phi':
                    nphi += 1
                    I.ops = []
                    I.x = {}
                    for j in range(CountIncoming(i)):
                        I.x[bbidx[IncomingBlock(i, j)]] = opnd(IncomingValue(i, j))
                else:
                    I.ops = [opnd(GetOperand(i, j)) for j in range(NumOperands(i))]
                    if op == 'icmp':
                        I.x = (PRED[ICmpPred(i)], self.type(TypeOf(GetOperand(i, 0))))
                    elif op == 'fcmp':
                        I.x = FCmpPred(i)
                    elif op == 'alloca':
                        I.x = (self.type(AllocatedType(i)), GetAlignment(i))
                    elif op == 'load':
                        I.x = (GetAlignment(i), GetOrdering(i))
                    elif op == 'store':
                        I.x = (self.type(TypeOf(GetOperand(i, 0))), GetAlignment(i), GetOrdering(i))
                    elif op == 'gep':
                        I.x = (self.type(GEPSourceType(i)),
                               [self.type(TypeOf(GetOperand(i, j))) for j in range(NumOperands(i))])
                    elif op in ('extractvalue', 'insertvalue'):
                        k = GetNumIndices(i)
                        p = GetIndices(i)
                        I.x = [p[j] for j in range(k)]
                    elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast',
                                'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
                        I.x = self.type(TypeOf(GetOperand(i, 0)))
                    elif op == 'landingpad':
                        I.ops = []
                        I.x = (bool(IsCleanup(i)),
                               [self.const(GetClause(i, j)) for j in range(NumClauses(i))])
                    elif op == 'atomicrmw':
                        I.x = (RMW[RMWOp(i)], GetOrdering(i))
                    elif op == 'cmpxchg':
                        I.x = (bool(GetWeak(i)), self.type(TypeOf(GetOperand(i, 1))), GetCmpXchgSucc(i), GetCmpXchgFail(i))
                    elif op == 'shufflevector':
                        I.x = [MaskValue(i, j) for j in range(NumMask(i))]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.x = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                        I.x = (bool(GetExact(i)),)
                B.insts.append(I)
            B.nphi = nphi
            t = B.insts[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [c[1] for c in t.x[0]] + [t.x[1]]
            elif t.op == 'invoke':
                B.succs = [t.x['normal'], t.x['unwind']]
            else:
                B.succs = []
        F._blocks = [B for B, _ in bbs]
        for B in F._blocks:
            for s in set(B.succs):
                F._blocks[s].preds.append(B.idx)


def dominators(F):
    bl = F.blocks
    n = len(bl)
    order = []
    seen = set()
    st = [(0, iter(bl[0].succs))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(bl[v].succs)))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in bl[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom, num


def dom(idom, a, b):
    """a dominates b"""
    while True:
        if a == b:
            return True
        if b == 0 or b not in idom:
            return False
        b = idom[b]


def loops(F):
    """header -> set of body blocks (natural loops)"""
    if F.loops is not None:
        return F.loops
    idom, num = dominators(F)
    F.idom = idom
    L = {}
    for B in F.blocks:
        if B.idx not in idom:
            continue
        for s in B.succs:
            if dom(idom, s, B.idx):
                body = L.setdefault(s, {s})
                st = [B.idx]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in F.blocks[x].preds if p in idom)
    F.loops = L
    return L
