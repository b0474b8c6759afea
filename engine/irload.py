"""Load LLVM 18 IR (text) through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C, ctypes.util, os

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so' if os.path.exists('/usr/lib/llvm-18/lib/libLLVM-18.so') else 'libLLVM-18.so')
V = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

ContextCreate = _f('LLVMContextCreate', V)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
GetDataLayout = _f('LLVMGetModuleDataLayout', V, V)
FirstFn = _f('LLVMGetFirstFunction', V, V)
NextFn = _f('LLVMGetNextFunction', V, V)
FirstGV = _f('LLVMGetFirstGlobal', V, V)
NextGV = _f('LLVMGetNextGlobal', V, V)
GetName2 = _f('LLVMGetValueName2', V, V, C.POINTER(C.c_size_t))
FirstBB = _f('LLVMGetFirstBasicBlock', V, V)
NextBB = _f('LLVMGetNextBasicBlock', V, V)
CountBB = _f('LLVMCountBasicBlocks', C.c_uint, V)
FirstI = _f('LLVMGetFirstInstruction', V, V)
NextI = _f('LLVMGetNextInstruction', V, V)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, V)
NumOps = _f('LLVMGetNumOperands', C.c_int, V)
GetOp = _f('LLVMGetOperand', V, V, C.c_uint)
TypeOf = _f('LLVMTypeOf', V, V)
TypeKind = _f('LLVMGetTypeKind', C.c_int, V)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, V)
StructN = _f('LLVMCountStructElementTypes', C.c_uint, V)
StructT = _f('LLVMStructGetTypeAtIndex', V, V, C.c_uint)
ArrLen = _f('LLVMGetArrayLength', C.c_uint, V)
VecLen = _f('LLVMGetVectorSize', C.c_uint, V)
ElemT = _f('LLVMGetElementType', V, V)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, V, V)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, V, V, C.c_uint)
VKind = _f('LLVMGetValueKind', C.c_int, V)
ZExtVal = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, V)
PrintV = _f('LLVMPrintValueToString', V, V)
PrintT = _f('LLVMPrintTypeToString', V, V)
DispMsg = _f('LLVMDisposeMessage', None, V)
ICmpP = _f('LLVMGetICmpPredicate', C.c_int, V)
FCmpP = _f('LLVMGetFCmpPredicate', C.c_int, V)
CountInc = _f('LLVMCountIncoming', C.c_uint, V)
IncVal = _f('LLVMGetIncomingValue', V, V, C.c_uint)
IncBB = _f('LLVMGetIncomingBlock', V, V, C.c_uint)
AllocT = _f('LLVMGetAllocatedType', V, V)
GEPT = _f('LLVMGetGEPSourceElementType', V, V)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, V)
Idxs = _f('LLVMGetIndices', C.POINTER(C.c_uint), V)
NumSucc = _f('LLVMGetNumSuccessors', C.c_uint, V)
GetSucc = _f('LLVMGetSuccessor', V, V, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, V)
BrCond = _f('LLVMGetCondition', V, V)
Called = _f('LLVMGetCalledValue', V, V)
CallFT = _f('LLVMGetCalledFunctionType', V, V)
NumArgs = _f('LLVMGetNumArgOperands', C.c_uint, V)
NParams = _f('LLVMCountParams', C.c_uint, V)
GetParam = _f('LLVMGetParam', V, V, C.c_uint)
IsDecl = _f('LLVMIsDeclaration', C.c_int, V)
GetInit = _f('LLVMGetInitializer', V, V)
IsConstG = _f('LLVMIsGlobalConstant', C.c_int, V)
GVT = _f('LLVMGlobalGetValueType', V, V)
ConstOp = _f('LLVMGetConstOpcode', C.c_int, V)
AggElem = _f('LLVMGetAggregateElement', V, V, C.c_uint)
DbgLine = _f('LLVMGetDebugLocLine', C.c_uint, V)
DbgFile = _f('LLVMGetDebugLocFilename', V, V, C.POINTER(C.c_uint))
AliasT = _f('LLVMAliasGetAliasee', V, V)
NormalDest = _f('LLVMGetNormalDest', V, V)
RMWOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, V)
BBAsV = _f('LLVMBasicBlockAsValue', V, V)
NPTy = _f('LLVMCountParamTypes', C.c_uint, V)
SExtVal = _f('LLVMConstIntGetSExtValue', C.c_longlong, V)
RetTy = _f('LLVMGetReturnType', V, V)

_cxa = C.CDLL('libstdc++.so.6').__cxa_demangle
_cxa.restype = V
_cxa.argtypes = [C.c_char_p, V, V, C.POINTER(C.c_int)]
_free = C.CDLL(None).free
_free.argtypes = [V]


def demangle(n):
    st = C.c_int(0)
    r = _cxa(n.encode(), None, None, C.byref(st))
    if not r:
        return n
    s = C.string_at(r).decode()
    _free(r)
    return s

OPS = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'offs', 'size')

    def __repr__(self):
        return {'i': 'i%s' % self.w, 'p': 'ptr'}.get(self.k, self.k)


class Ins:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'line', 'file')


class Block:
    __slots__ = ('idx', 'phis', 'ins', 'succs')


class Fn:
    __slots__ = ('name', 'dem', 'ref', 'params', 'blocks', 'decl', 'tys', 'wto', 'loopof', 'rty', 'live')


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf, msg, mod = V(), C.c_char_p(), V()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.mod = mod
        self.dl = GetDataLayout(mod)
        self.tyc = {}
        self.fns = {}
        self.gvs = {}
        self.fnref = {}
        f = FirstFn(mod)
        while f:
            n = self._name(f)
            fn = Fn()
            fn.name = n
            fn.dem = None
            fn.ref = f
            fn.blocks = None
            fn.decl = bool(IsDecl(f))
            self.fns[n] = fn
            self.fnref[f] = fn
            f = NextFn(f)
        g = FirstGV(mod)
        while g:
            self.gvs[g] = self._name(g)
            g = NextGV(g)
        self._next = 0

    def _name(self, v):
        n = C.c_size_t()
        p = GetName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def dem(self, fn):
        if fn.dem is None:
            fn.dem = demangle(fn.name)
        return fn.dem

    def ty(self, t):
        r = self.tyc.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        r.w = r.n = 0
        r.el = r.els = r.offs = None
        r.size = 0
        self.tyc[t] = r
        if k == 0:
            r.k = 'v'
        elif k == 8:
            r.k = 'i'
            r.w = IntW(t)
            r.size = ABISize(self.dl, t)
        elif k == 12:
            r.k = 'p'
            r.w = 64
            r.size = 8
        elif k == 10:
            r.k = 's'
            r.els = [self.ty(StructT(t, i)) for i in range(StructN(t))]
            try:
                r.offs = [OffsetOf(self.dl, t, i) for i in range(len(r.els))]
                r.size = ABISize(self.dl, t)
            except Exception:
                pass
        elif k == 11:
            r.k = 'a'
            r.n = ArrLen(t)
            r.el = self.ty(ElemT(t))
            r.size = r.n * r.el.size
        elif k == 13:
            r.k = 'vec'
            r.n = VecLen(t)
            r.el = self.ty(ElemT(t))
            r.size = ABISize(self.dl, t)
        elif k in (2, 3, 4):
            r.k = 'f'
            r.w = {2: 32, 3: 64, 4: 80}[k]
            r.size = ABISize(self.dl, t)
        else:
            r.k = 'o%d' % k
        return r

    def struct_offset(self, t, i):
        return OffsetOf(self.dl, t, i)

    # ---- operands: ('r',id) | ('c', value-descr, ty)
    def operand(self, v, ids):
        k = VKind(v)
        if k in (0, 24):
            return ('r', ids[v])
        if k == 22:
            return ('md',)
        if k == 1:
            return ('bb', v)
        return self.const(v)

    def const(self, v):
        k = VKind(v)
        t = self.ty(TypeOf(v))
        if k == 18:
            w = t.w
            if w <= 64:
                return ('int', ZExtVal(v) & ((1 << w) - 1), w)
            # wide constant: parse text
            s = self.text(v).split()[-1]
            return ('int', int(s) & ((1 << w) - 1), w)
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', t)
        if k == 5:
            return ('fn', self.fnref[v])
        if k == 8:
            return ('gv', v)
        if k == 6:
            return self.const(AliasT(v))
        if k == 15:
            return ('zero', t)
        if k in (11, 12, 13):
            return ('agg', t, [self.const(GetOp(v, i)) for i in range(NumOps(v))])
        if k in (16, 17):
            return ('agg', t, [self.const(AggElem(v, i)) for i in range(t.n)])
        if k == 19:
            return ('fp', self.text(v), t)
        if k == 10:
            oc = OPS.get(ConstOp(v))
            if oc == 'gep':
                return ('cexpr', 'gep', self.gepinfo(v, {}), t)
            return ('cexpr', oc, [self.const(GetOp(v, i)) for i in range(NumOps(v))], t)
        if k == 23:
            return ('asm', self.text(v))
        return ('unk', k, self.text(v))

    def text(self, v):
        p = PrintV(v)
        s = C.string_at(p).decode()
        DispMsg(p)
        return s

    def gepinfo(self, v, ids):
        """-> (baseop, constoff, [(operand, scale)])"""
        base = self.operand(GetOp(v, 0), ids)
        t = GEPT(v)
        off = 0
        syms = []
        n = NumOps(v)
        for i in range(1, n):
            iv = GetOp(v, i)
            o = self.operand(iv, ids)
            if i == 1:
                sz = ABISize(self.dl, t)
                cur = t
            else:
                k = TypeKind(cur)
                if k == 10:
                    fi = o[1]
                    off += OffsetOf(self.dl, cur, fi)
                    cur = StructT(cur, fi)
                    continue
                cur = ElemT(cur)
                sz = ABISize(self.dl, cur)
            if o[0] == 'int':
                x = o[1]
                w = o[2]
                if x >> (w - 1):
                    x -= 1 << w
                off += x * sz
            else:
                syms.append((o, sz, self.ty(TypeOf(iv)).w))
        return (base, off, syms)

    def load_fn(self, fn):
        if fn.blocks is not None:
            return fn
        ids = {}
        f = fn.ref
        fn.params = []
        fn.tys = {}
        nid = 0
        for i in range(NParams(f)):
            p = GetParam(f, i)
            ids[p] = nid
            fn.tys[nid] = self.ty(TypeOf(p))
            fn.params.append(nid)
            nid += 1
        bbs = []
        bbi = {}
        b = FirstBB(f)
        while b:
            bbi[BBAsV(b)] = len(bbs)
            bbi[b] = len(bbs)
            bbs.append(b)
            i = FirstI(b)
            while i:
                ids[i] = nid
                nid += 1
                i = NextI(i)
            b = NextBB(b)
        fn.blocks = []
        n = C.c_uint()
        for bi, b in enumerate(bbs):
            bl = Block()
            bl.idx = bi
            bl.phis = []
            bl.ins = []
            bl.succs = []
            i = FirstI(b)
            while i:
                op = OPS.get(Opcode(i), 'op%d' % Opcode(i))
                I = Ins()
                I.op = op
                I.id = ids[i]
                I.ty = self.ty(TypeOf(i))
                fn.tys[I.id] = I.ty
                I.x = None
                I.line = DbgLine(i)
                I.file = None
                if I.line:
                    p = DbgFile(i, C.byref(n))
                    I.file = C.string_at(p, n.value).decode() if p else None
                if op == 'phi':
                    I.ops = [(bbi[IncBB(i, k)], self.operand(IncVal(i, k), ids)) for k in range(CountInc(i))]
                    bl.phis.append(I)
                    i = NextI(i)
                    continue
                if op in ('call', 'invoke'):
                    na = NumArgs(i)
                    cv = Called(i)
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(na)]
                    ck = VKind(cv)
                    if ck == 5:
                        I.x = ('fn', self.fnref[cv])
                    else:
                        I.x = self.operand(cv, ids)
                    if op == 'invoke':
                        bl.succs = [bbi[NormalDest(i)]]
                elif op == 'br':
                    I.ops = [self.operand(BrCond(i), ids)] if IsCond(i) else []
                    bl.succs = [bbi[GetSucc(i, k)] for k in range(NumSucc(i))]
                elif op == 'switch':
                    I.ops = [self.operand(GetOp(i, 0), ids)]
                    ns = NumSucc(i)
                    cases = []
                    for k in range(1, ns):
                        c = self.const(GetOp(i, 2 * k))
                        cases.append((c[1], bbi[GetSucc(i, k)]))
                    I.x = (bbi[GetSucc(i, 0)], cases, self.ty(TypeOf(GetOp(i, 0))).w)
                    bl.succs = sorted(set([I.x[0]] + [c[1] for c in cases]))
                elif op == 'gep':
                    I.ops = None
                    I.x = self.gepinfo(i, ids)
                elif op == 'alloca':
                    I.ops = [self.operand(GetOp(i, 0), ids)]
                    I.x = self.ty(AllocT(i)).size
                elif op == 'icmp':
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(2)]
                    I.x = (PRED[ICmpP(i)], self.ty(TypeOf(GetOp(i, 0))))
                elif op == 'fcmp':
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(2)]
                    I.x = FCmpP(i)
                elif op in ('extractvalue', 'insertvalue'):
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(NumOps(i))]
                    I.x = [Idxs(i)[k] for k in range(NumIdx(i))]
                    if op == 'insertvalue':
                        pass
                elif op == 'store':
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(2)]
                    I.x = self.ty(TypeOf(GetOp(i, 0)))
                elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                    I.ops = [self.operand(GetOp(i, 0), ids)]
                    I.x = self.ty(TypeOf(GetOp(i, 0)))
                elif op == 'atomicrmw':
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(2)]
                    I.x = RMWOp(i)
                elif op == 'landingpad':
                    I.ops = []
                else:
                    I.ops = [self.operand(GetOp(i, k), ids) for k in range(NumOps(i))]
                    if op == 'select':
                        pass
                bl.ins.append(I)
                i = NextI(i)
            fn.blocks.append(bl)
        fn.rty = None
        self._wto(fn)
        self._live(fn)
        return fn

    def _live(self, fn):
        """live-in registers per block (phi operands live at the predecessors' ends)"""
        nb = len(fn.blocks)
        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        phiuse = [set() for _ in range(nb)]   # uses at end of pred block

        def regs(x, acc):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'r':
                    acc.add(x[1])
                    return
                for y in x:
                    if isinstance(y, (tuple, list)):
                        regs(y, acc)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (tuple, list)):
                        regs(y, acc)
        for b in fn.blocks:
            i = b.idx
            for p in b.phis:
                dfn[i].add(p.id)
                for (pb, o) in p.ops:
                    if o[0] == 'r':
                        phiuse[pb].add(o[1])
            for I in b.ins:
                acc = set()
                if I.ops:
                    regs(I.ops, acc)
                if I.op in ('gep', 'call', 'invoke'):
                    regs(I.x, acc)
                use[i] |= (acc - dfn[i])
                dfn[i].add(I.id)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                i = b.idx
                out = set(phiuse[i])
                for s in b.succs:
                    out |= live[s]
                n = use[i] | (out - dfn[i])
                # phi results of this block are live at entry too (assigned on the edge)
                n |= set(p.id for p in b.phis)
                if n != live[i]:
                    live[i] = n
                    ch = True
        fn.live = live

    def _wto(self, fn):
        succs = [b.succs for b in fn.blocks]
        import sys
        sys.setrecursionlimit(100000)

        def sccs(nodes):
            nodes_s = set(nodes)
            idx = {}
            low = {}
            st = []
            on = set()
            out = []
            cnt = [0]

            def dfs(root):
                work = [(root, iter(succs[root]))]
                idx[root] = low[root] = cnt[0]
                cnt[0] += 1
                st.append(root)
                on.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodes_s:
                            continue
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            on.add(w)
                            work.append((w, iter(succs[w])))
                            adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append(comp)
            for r in nodes:
                if r not in idx:
                    dfs(r)
            out.reverse()
            return out
        preds = [[] for _ in fn.blocks]
        for i, ss in enumerate(succs):
            for s in ss:
                preds[s].append(i)

        def build(nodes, entry):
            res = []
            # order nodes so that dfs starts at entry
            ns = [entry] + [n for n in nodes if n != entry] if entry in nodes else list(nodes)
            for comp in sccs(ns):
                if len(comp) == 1 and comp[0] not in succs[comp[0]]:
                    res.append(comp[0])
                else:
                    cs = set(comp)
                    heads = [n for n in comp if n == 0 or any(p not in cs and p in reach for p in preds[n])]
                    h = heads[0] if heads else comp[0]
                    if len(heads) > 1:
                        raise RuntimeError('irreducible loop in ' + fn.name)
                    sub = [n for n in comp if n != h]
                    # entry of sub: successors of h
                    start = next((s for s in succs[h] if s in cs and s != h), None)
                    saved = None
                    res.append((h, build(sub, start) if sub else []))
            return res
        reach = {0}
        w = [0]
        while w:
            x = w.pop()
            for s in succs[x]:
                if s not in reach:
                    reach.add(s)
                    w.append(s)
        fn.wto = build([i for i in range(len(fn.blocks)) if i in reach], 0)
