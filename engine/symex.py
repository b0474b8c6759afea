"""Forward symbolic execution / VC generation over LLVM IR with contracts and inferred (Houdini) loop invariants."""
import sys, time, re, itertools
import z3
import irload

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Ptr:
    """pointer value: region (None = integer/null), constant byte offset, symbolic parts {scale: 64-bit term}"""
    __slots__ = ('reg', 'off', 'syms', 'inf')

    def __init__(s, reg, off=0, syms=None, inf=False):
        s.reg = reg
        s.off = off
        s.syms = syms or {}
        s.inf = inf

    def __repr__(s):
        return 'P(%s+%s%s)' % (s.reg.name if s.reg else None, s.off, ''.join('+%d*%s' % (k, v) for k, v in s.syms.items()))


class PtrIte:
    __slots__ = ('alts',)   # list of (cond, Ptr), conds mutually exclusive + exhaustive under pc

    def __init__(s, alts):
        s.alts = alts

    def __repr__(s):
        return 'PI%r' % (s.alts,)


class PtrInt:
    __slots__ = ('p', 'add')

    def __init__(s, p):
        s.p = p


class Undef:
    def __repr__(s):
        return 'undef'


UNDEF = Undef()


class Opaque:
    """a pointer the engine does not represent; any use is unsupported"""
    def __repr__(s):
        return 'opaque'


OPAQUE = Opaque()


class FnPtr:
    __slots__ = ('fn',)

    def __init__(s, fn):
        s.fn = fn

    def __repr__(s):
        return 'fn:' + s.fn.name


class FPVal:
    __slots__ = ('name',)

    def __init__(s, n='fp'):
        s.name = n


NULL = Ptr(None, 0)


class Region:
    _n = 0
    __slots__ = ('id', 'name', 'kind', 'size', 'stride', 'word', 'cap', 'const', 'stack', 'gv', 'lenterm')

    def __init__(s, name, kind, size=None, stride=None, cap=None):
        Region._n += 1
        s.id = Region._n
        s.name = '%s#%d' % (name, s.id)
        s.kind = kind          # 'blob' | 'array' | 'lazy'
        s.size = size
        s.stride = stride
        s.cap = cap            # array: number of elements (term) or None
        s.word = None
        s.lenterm = None
        if stride:
            s.setstride(stride)
        s.const = False
        s.stack = False

    def setstride(s, stride):
        s.stride = stride
        s.word = next(w for w in (8, 4, 2, 1) if stride % w == 0)


MASK = {w: (1 << w) - 1 for w in range(1, 513)}


def isc(v):
    return isinstance(v, (int, bool))


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Undef):
        return z3.BitVec(fresh('undef'), w)
    if isinstance(v, z3.BitVecRef):
        return v
    raise Unsupported('bv of %r' % (v,))


def bl(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Undef):
        return z3.Bool(fresh('undefb'))
    return v


_fc = itertools.count()


def fresh(n):
    return '%s!%d' % (n, next(_fc))


def simp(e):
    """simplify and return python constant when concrete"""
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e, mul2concat=True)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def ptr_add(p, off, scale=None, term=None):
    if isinstance(p, PtrIte):
        return PtrIte([(c, ptr_add(q, off, scale, term)) for c, q in p.alts])
    if isinstance(p, Undef):
        return p
    if isinstance(p, FnPtr):
        raise Unsupported('arith on fn ptr')
    syms = p.syms
    o = p.off + off
    if term is not None:
        if isc(term):
            t = term
            if t >> 63:
                t -= 1 << 64
            o += t * scale
        else:
            syms = dict(syms)
            if scale in syms:
                syms[scale] = simp_keep(syms[scale] + term)
            else:
                syms[scale] = term
            if isc(syms[scale]):
                t = syms.pop(scale)
                if t >> 63:
                    t -= 1 << 64
                o += t * scale
    return Ptr(p.reg, o, syms, p.inf)


def simp_keep(e):
    r = simp(e)
    return r


def split_idx(p):
    """array region pointer -> (idx (int|term), offset in stride (int), rest syms)"""
    S = p.reg.stride
    q, r = divmod(p.off, S)
    idx = q
    rest = {}
    for sc, t in p.syms.items():
        if sc % S == 0:
            k = sc // S
            tt = t if k == 1 else t * z3.BitVecVal(k, 64)
            idx = tt if (isc(idx) and idx == 0) else (bv(idx & MASK[64], 64) + tt)
        else:
            rest[sc] = t
    return idx, r, rest


class State:
    __slots__ = ('env', 'mem', 'pc', 'facts', 'model')

    def copy(s):
        n = State()
        n.env = dict(s.env)
        n.mem = dict(s.mem)
        n.pc = s.pc
        n.facts = s.facts
        n.model = s.model
        return n


class Blob:
    """immutable-ish contents: dict off -> (nbytes, value). copy on write"""
    __slots__ = ('cells', 'owner', 'zero')

    def __init__(s, cells=None):
        s.cells = cells if cells is not None else {}
        s.zero = False


class Obl:
    __slots__ = ('name', 'kind', 'pc', 'facts', 'goal', 'loc', 'exact', 'hints')


class LoopAbort(Exception):
    pass


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(max_unroll=400, loops='unroll', merge=True, feas_timeout=2000, pred_timeout=150, solver_reset=400, bounds=True, verbose=False, inv_pairs=True, inv_mem=True, deadline=None, modref=True)
        if opts:
            self.o.update(opts)
        self.obls = []
        self.probing = 0
        self.quiet = 0              # >0: do not record obligations
        self.stubs = []             # (pattern, fn, recursive)
        self.loop_templates = []    # (arity, fnptr, ctx)
        self.loop_over = {}         # template index -> only loop variables that point into regions of this name
        self.loop_region = None
        self.inputs = []            # (name, term, width)
        self.covers = []
        self.callstack = []
        self.wlogs = []
        self.cmplogs = []
        self.gvregs = {}
        self.scaled = {}
        self.keep = []
        self.trusted = set()
        self.contracts_used = set()
        self.executed = set()
        self.solver = z3.SolverFor('QF_ABV') if False else z3.Solver()
        self.solver.set('timeout', self.o['feas_timeout'])
        self.cur_tmo = self.o['feas_timeout']
        self.in_pred = 0
        self.cvc5 = None            # back end for hard candidates, set by prove.py
        self.track = {}
        self.nq = 0
        self.tq = 0.0
        self.inexact = set()
        self.loops_inv = []
        self.unrolled = 0
        self.pruned_throw = 0
        self.steps = 0
        self.curloc = None
        self.ret_feas = True
        self.inv_unknown = []       # invariant candidates given up because the solver did not decide them
        self.hard_left = 240.0
        self.n_unknown = 0
        self.loops_decided = 0
        self.probe_unknown = []

    # ---------------------------------------------------------------- misc
    def newstate(self):
        s = State()
        s.env = {}
        s.mem = {}
        s.pc = ()
        s.facts = ()
        s.model = None
        return s

    def lit(self, c):
        k = c.get_id()
        r = self.track.get(k)
        if r is None:
            b = z3.Bool('pc!%d' % len(self.track))
            self.solver.add(z3.Implies(b, c))
            self.track[k] = r = (b, c)
        return r[0]

    def check(self, conds):
        """sat / unsat / unknown of a conjunction (no quantified facts)"""
        t0 = time.time()
        if self.o['deadline'] and t0 > self.o['deadline']:
            raise Unsupported('time budget exhausted')
        if len(self.track) > self.o['solver_reset']:
            self.track.clear()
            self.solver = z3.Solver()
            self.cur_tmo = 0
        lits = [self.lit(c) for c in conds]
        tmo = self.o['pred_timeout'] if self.in_pred else self.o['feas_timeout']
        if tmo != self.cur_tmo:
            self.solver.set('timeout', tmo)
            self.cur_tmo = tmo
        r = self.solver.check(*lits)
        self.nq += 1
        if r == z3.unknown:
            self.n_unknown += 1
        self.tq += time.time() - t0
        return r

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r = self.check(list(st.pc) + [c])
        return r != z3.unsat

    def assume(self, st, c):
        c = simp(c) if not isinstance(c, bool) else c
        if c is True:
            return st
        if c is False:
            return None
        st.pc = st.pc + (c,)
        return st

    def oblig(self, st, name, kind, goal, loc=None):
        if self.quiet:
            return
        goal = simp(goal)
        o = Obl()
        o.name = name
        o.kind = kind
        o.pc = st.pc
        o.facts = st.facts
        o.goal = goal
        o.loc = loc or self.curloc
        self.obls.append(o)

    # ---------------------------------------------------------------- operands
    def val(self, st, o):
        k = o[0]
        if k == 'r':
            try:
                return st.env[o[1]]
            except KeyError:
                raise Unsupported('undefined register')
        if k == 'int':
            if o[2] == 1:
                return bool(o[1])
            return o[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            t = o[1]
            if t.k == 's':
                return tuple(UNDEF for _ in t.els)
            return UNDEF
        if k == 'fn':
            return FnPtr(o[1])
        if k == 'gv':
            return Ptr(self.gvregion(st, o[1]))
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            r = [self.val(st, x) for x in o[2]]
            return tuple(r)
        if k == 'cexpr':
            if o[1] == 'gep':
                return self.gep(st, o[2])
            if o[1] in ('bitcast', 'addrspacecast'):
                return self.val(st, o[2][0])
            if o[1] == 'ptrtoint':
                return PtrInt(self.val(st, o[2][0]))
            if o[1] == 'inttoptr':
                v = self.val(st, o[2][0])
                if isc(v):
                    return Ptr(None, v)
            if o[1] == 'icmp':
                raise Unsupported('const icmp')
            raise Unsupported('constexpr ' + str(o[1]))
        if k == 'fp':
            return FPVal(o[1])
        raise Unsupported('operand %r' % (o[:2],))

    def zero(self, t):
        if t.k == 'i':
            return False if t.w == 1 else 0
        if t.k == 'p':
            return NULL
        if t.k == 's':
            return tuple(self.zero(e) for e in t.els)
        if t.k in ('a', 'vec'):
            return tuple(self.zero(t.el) for _ in range(t.n))
        if t.k == 'f':
            return FPVal('0')
        raise Unsupported('zero of ' + t.k)

    def gvregion(self, st, gv):
        r = self.gvregs.get(gv)
        if r is None:
            t = self.m.ty(irload.GVT(gv))
            r = Region('@' + self.m.gvs[gv], 'blob', size=t.size)
            self.gvregs[gv] = r
            r.const = bool(irload.IsConstG(gv))
        if r.id not in st.mem:
            b = Blob()
            t = self.m.ty(irload.GVT(gv))
            init = irload.GetInit(gv)
            if init:
                self.initcells(st, b.cells, 0, self.m.const(init), t, irload.TypeOf(init))
            st.mem[r.id] = b
        return r

    def initcells(self, st, cells, off, c, t, lt):
        k = c[0]
        if t.k == 'i':
            if c[0] == 'int':
                cells[off] = (max(1, t.size), c[1])
            return
        if t.k == 'p':
            cells[off] = (8, self.val(st, c))
            return
        if t.k == 's':
            els = c[2] if k == 'agg' else None
            for i, et in enumerate(t.els):
                self.initcells(st, cells, off + t.offs[i], els[i] if els else ('zero' if k == 'zero' else 'undef', et), et, None) if k != 'undef' else None
            return
        if t.k in ('a', 'vec'):
            els = c[2] if k == 'agg' else None
            if k == 'undef':
                return
            if t.n > 70000:
                raise Unsupported('huge global')
            for i in range(t.n):
                self.initcells(st, cells, off + i * t.el.size, els[i] if els else ('zero', t.el), t.el, None)
            return
        if t.k == 'f':
            cells[off] = (t.size, FPVal(str(c)))

    def zerofix(self, c, t):
        return c

    def gep(self, st, info):
        base, off, syms = info
        p = self.val(st, base)
        p = ptr_add(p, off)
        for (o, sc, w) in syms:
            v = self.val(st, o)
            if isinstance(v, PtrInt):
                raise Unsupported('gep by ptrint')
            if w < 64 and not isinstance(v, Undef):
                v = self.sext(v, w, 64)
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                v = bv(v, 64)
            if not isc(v) and not isinstance(v, Undef):
                s = self.scaled.get(v.get_id())
                if s is not None:
                    t, S, c = s
                    p = ptr_add(p, c * sc, S * sc, t)
                    continue
                v = simp(v)
                if not isc(v):
                    s = self.scaled.get(v.get_id())
                    if s is not None:
                        t, S, c = s
                        p = ptr_add(p, c * sc, S * sc, t)
                        continue
            if isinstance(v, Undef):
                v = z3.BitVec(fresh('undef'), 64)
            p = ptr_add(p, 0, sc, v)
        return p

    # ---------------------------------------------------------------- int ops
    def sext(self, v, w, w2):
        if isinstance(v, Undef):
            return z3.BitVec(fresh('undef'), w2)
        if isinstance(v, bool):
            return MASK[w2] if v else 0
        if isinstance(v, int):
            if v >> (w - 1):
                return (v | (MASK[w2] & ~MASK[w]))
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(MASK[w2], w2), z3.BitVecVal(0, w2))
        r = z3.SignExt(w2 - w, v)
        s = self.scaled.get(v.get_id())
        return r

    def zext(self, v, w, w2):
        if isinstance(v, Undef):
            return z3.BitVec(fresh('undef'), w2)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        return z3.ZeroExt(w2 - w, v)

    def trunc(self, v, w, w2):
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, PtrInt):
            raise Unsupported('trunc ptrint')
        if isinstance(v, int):
            v &= MASK[w2]
            return bool(v) if w2 == 1 else v
        e = z3.Extract(w2 - 1, 0, v)
        if w2 == 1:
            return simp(e == z3.BitVecVal(1, 1))
        return simp(e)

    def mkscaled(self, t, S, c):
        """64-bit term t*S + c, remembered for exact division"""
        if isc(t):
            return (t * S + c) & MASK[64]
        e = t if S == 1 else t * z3.BitVecVal(S & MASK[64], 64)
        if c:
            e = e + z3.BitVecVal(c & MASK[64], 64)
        if S != 1 or c:
            self.scaled[e.get_id()] = (t, S, c)
            self.keep.append(e)
        return e

    def ptrdiff(self, a, b):
        if isinstance(a, PtrIte):
            return self.ptrmap(a, lambda p: self.ptrdiff(p, b), 64)
        if isinstance(b, PtrIte):
            return self.ptrmap(b, lambda p: self.ptrdiff(a, p), 64)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.BitVec(fresh('undef'), 64)
        if a.reg is not b.reg:
            # pointers into different objects: only meaningful on infeasible combinations; over-approximate
            return z3.BitVec(fresh('xdiff'), 64)
        if a.inf or b.inf:
            return z3.BitVecVal(1 << 46, 64)
        c = a.off - b.off
        parts = {}
        for sc, t in a.syms.items():
            parts[sc] = t
        for sc, t in b.syms.items():
            if sc in parts:
                d = simp(parts[sc] - t)
                parts.pop(sc)
                if isc(d):
                    if d >> 63:
                        d -= 1 << 64
                    c += d * sc
                else:
                    parts[sc] = d
            else:
                parts[sc] = simp(-t)
        if not parts:
            return c & MASK[64]
        if len(parts) == 1:
            (sc, t), = parts.items()
            return self.mkscaled(t, sc, c)
        r = z3.BitVecVal(c & MASK[64], 64)
        for sc, t in parts.items():
            r = r + t * sc
        return r

    def ptrmap(self, p, f, w):
        vals = [(c, f(q)) for c, q in p.alts]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if isc(v) and isc(r) and v == r:
                continue
            if isinstance(v, (bool, z3.BoolRef)):
                r = simp(z3.If(c, bl(v), bl(r)))
            else:
                r = simp(z3.If(c, bv(v, w), bv(r, w)))
        return r

    def divexact(self, op, a, c):
        """a / c with a remembered as t*S+k"""
        if isc(a):
            return None
        s = self.scaled.get(a.get_id())
        if s is None:
            return None
        t, S, k = s
        if S % c == 0 and k % c == 0:
            return self.mkscaled(t, S // c, k // c)
        return None

    def binop(self, op, a, b, w, ty=None):
        if isinstance(a, FPVal) or isinstance(b, FPVal):
            return FPVal()
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptrdiff(a.p, b.p)
            if op in ('add', 'sub') and isinstance(a, PtrInt) and isc(b):
                bb = b if b < (1 << 63) else b - (1 << 64)
                return PtrInt(ptr_add(a.p, bb if op == 'add' else -bb))
            if op == 'and' and isc(b) and isinstance(a, PtrInt) and b < 16:
                # alignment test: natural alignment of allocations
                if isinstance(a.p, Ptr) and a.p.reg is not None and not any(s % (b + 1) for s in a.p.syms):
                    return (a.p.off) & b
            if isinstance(a, PtrInt) and isinstance(a.p, Ptr) and a.p.reg is None and not a.p.syms:
                return self.binop(op, a.p.off, b, w, ty)
            if isinstance(b, PtrInt) and isinstance(b.p, Ptr) and b.p.reg is None and not b.p.syms:
                return self.binop(op, a, b.p.off, w, ty)
            raise Unsupported('int op %s on pointer' % op)
        if isinstance(a, Undef):
            a = z3.BitVec(fresh('undef'), w) if w > 1 else z3.Bool(fresh('undefb'))
        if isinstance(b, Undef):
            b = z3.BitVec(fresh('undef'), w) if w > 1 else z3.Bool(fresh('undefb'))
        if w == 1:
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op == 'xor' or op == 'add' or op == 'sub':
                if isinstance(a, bool):
                    return bnot(b) if a else b
                if isinstance(b, bool):
                    return bnot(a) if b else a
                return z3.Xor(a, b)
            if op == 'mul':
                return band(a, b)
            raise Unsupported('i1 op ' + op)
        if isc(a) and isc(b):
            M = MASK[w]
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> min(b, w - 1)) & M
            if b == 0:
                raise Unsupported('division by zero (concrete)')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (sa - q * sb) & M
        # identities
        if isc(b):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if b == MASK[w] and op == 'and':
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'mul' and w == 64:
                sc = self.scaled.get(a.get_id())
                bb = b if b < (1 << 63) else b - (1 << 64)
                if sc:
                    return self.mkscaled(sc[0], sc[1] * bb, sc[2] * bb)
                return self.mkscaled(a, bb, 0)
            if op == 'shl' and w == 64 and b <= 12:
                sc = self.scaled.get(a.get_id())
                if sc:
                    return self.mkscaled(sc[0], sc[1] << b, sc[2] << b)
                return self.mkscaled(a, 1 << b, 0)
            if op in ('sdiv', 'udiv') and w == 64:
                r = self.divexact(op, a, b)
                if r is not None:
                    return r
            if op in ('ashr', 'lshr') and w == 64 and b < 16:
                r = self.divexact(op, a, 1 << b)
                if r is not None:
                    return r
            if op in ('add', 'sub') and w == 64:
                sc = self.scaled.get(a.get_id())
                if sc:
                    bb = b if b < (1 << 63) else b - (1 << 64)
                    return self.mkscaled(sc[0], sc[1], sc[2] + (bb if op == 'add' else -bb))
        if isc(a):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
            if op == 'mul' and w == 64:
                return self.binop('mul', b, a, w)
        A = bv(a, w)
        B = bv(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            return A & B
        if op == 'or':
            return A | B
        if op == 'xor':
            return A ^ B
        if op == 'shl':
            return A << B
        if op == 'lshr':
            return z3.LShR(A, B)
        if op == 'ashr':
            return A >> B
        if op == 'udiv':
            return z3.UDiv(A, B)
        if op == 'urem':
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise Unsupported('binop ' + op)

    def icmp(self, pred, a, b, ty):
        if ty.k == 'p':
            return self.pcmp(pred, a, b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            pa = a.p if isinstance(a, PtrInt) else (Ptr(None, a) if isc(a) else None)
            pb = b.p if isinstance(b, PtrInt) else (Ptr(None, b) if isc(b) else None)
            if pa is None or pb is None:
                raise Unsupported('icmp ptrint')
            return self.pcmp(pred, pa, pb)
        if isinstance(a, FPVal) or isinstance(b, FPVal):
            return z3.Bool(fresh('fp'))
        w = ty.w
        if isinstance(a, Undef):
            a = z3.BitVec(fresh('undef'), w) if w > 1 else z3.Bool(fresh('undefb'))
        if isinstance(b, Undef):
            b = z3.BitVec(fresh('undef'), w) if w > 1 else z3.Bool(fresh('undefb'))
        if w == 1:
            if pred == 'eq':
                return bnot(self.binop('xor', a, b, 1))
            if pred == 'ne':
                return self.binop('xor', a, b, 1)
            a = bv(a, 8)
            b = bv(b, 8)
            w = 8
            if pred[0] == 's':
                raise Unsupported('signed i1 cmp')
        if isc(a) and isc(b):
            if pred[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        A = bv(a, w)
        B = bv(b, w)
        if self.cmplogs:
            for l in self.cmplogs:
                l.append((A, B))
        # scaled comparison: t*S+c  vs same scale/const: compare t (no overflow: object sizes)
        if w == 64:
            sa = self.scaled.get(A.get_id()) if not isc(a) else None
            sb = self.scaled.get(B.get_id()) if not isc(b) else None
            if sa and isc(b):
                t, S, c = sa
                if S > 0 and pred in ('eq', 'ne') and (b - c) % S == 0 and b >= c:
                    A, B = t, z3.BitVecVal((b - c) // S, 64)
                elif S > 0 and c == 0 and pred in ('ugt',) and b >= (1 << 62):
                    return False
            elif sa and sb and sa[1] == sb[1] and sa[2] == sb[2] and sa[1] > 0:
                A, B = sa[0], sb[0]
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        return simp(r)

    def pcmp(self, pred, a, b):
        if isinstance(a, PtrIte):
            return self.ptrmap(a, lambda p: self.pcmp(pred, p, b), 1)
        if isinstance(b, PtrIte):
            return self.ptrmap(b, lambda p: self.pcmp(pred, a, p), 1)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.Bool(fresh('undefb'))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.fn is b.fn
            if pred == 'eq':
                return same
            if pred == 'ne':
                return not same
            raise Unsupported('fnptr cmp')
        if a.inf != b.inf:
            # 'inf' marks the end of storage of a symbolic vector: never reached
            lt = b.inf
            return {'eq': False, 'ne': True, 'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}[pred]
        if a.reg is not b.reg:
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            if a.reg is None or b.reg is None:
                if not a.syms and not b.syms:
                    an = a.reg is None
                    return {'ult': an, 'ule': an, 'ugt': not an, 'uge': not an}[pred]
            raise Unsupported('ptr order across regions')
        if not a.syms and not b.syms:
            x, y = a.off, b.off
            return {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred if pred in ('eq', 'ne') else pred[1:]]
        # common scale
        scs = set(a.syms) | set(b.syms)
        if len(scs) == 1:
            sc = scs.pop()
            if (a.off - b.off) % sc == 0:
                base = min(a.off, b.off)
                ta = a.syms.get(sc, 0)
                tb = b.syms.get(sc, 0)
                A = bv(ta, 64) + ((a.off - base) // sc)
                B = bv(tb, 64) + ((b.off - base) // sc)
                A = z3.simplify(A, mul2concat=True)
                B = z3.simplify(B, mul2concat=True)
                for l in self.cmplogs:
                    l.append((A, B))
                return simp({'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B)}[pred]())
        A = self.total(a)
        B = self.total(b)
        return simp({'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                     'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B)}[pred]())

    def total(self, p):
        r = z3.BitVecVal(p.off & MASK[64], 64)
        for sc, t in p.syms.items():
            r = r + bv(t, 64) * z3.BitVecVal(sc, 64)
        return r

    # ---------------------------------------------------------------- ite
    def ite(self, c, a, b, ty):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return PtrInt(self.ite(c, a.p, b.p, None))
        pt = (Ptr, PtrIte, FnPtr)
        if isinstance(a, pt) or isinstance(b, pt):
            if not (isinstance(a, pt) and isinstance(b, pt)):
                if isc(a) and a == 0:
                    a = NULL
                elif isc(b) and b == 0:
                    b = NULL
                else:
                    return UNDEF
            return self.pite(c, a, b)
        if isinstance(a, tuple):
            tys = ty.els if ty is not None and ty.k == 's' else ([ty.el] * len(a) if ty is not None else [None] * len(a))
            return tuple(self.ite(c, x, y, t) for x, y, t in zip(a, b, tys))
        if isinstance(a, FPVal) or isinstance(b, FPVal):
            return FPVal()
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return UNDEF
        w = ty.w if ty is not None else None
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                if a == b:
                    return a
                return c if a else bnot(c)
            return simp(z3.If(c, bl(a), bl(b)))
        if isc(a) and isc(b) and a == b:
            return a
        if not isc(a) and not isc(b) and z3.eq(a, b):
            return a
        if w is None:
            w = a.size() if not isc(a) else (b.size() if not isc(b) else None)
            if w is None:
                raise Unsupported('ite width')
        return z3.If(c, bv(a, w), bv(b, w))

    def pite(self, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg and a.inf == b.inf:
                if a.reg is None:
                    if a.off == b.off:
                        return a
                elif a.off == b.off and set(a.syms) == set(b.syms) and all(z3.eq(a.syms[k], b.syms[k]) for k in a.syms):
                    return a
                elif a.inf:
                    return a
                else:
                    scs = set(a.syms) | set(b.syms)
                    if a.reg.kind == 'array':
                        scs.add(a.reg.stride)
                    d = a.off - b.off
                    if len(scs) == 1:
                        sc = next(iter(scs))
                        if d % sc == 0:
                            base = min(a.off, b.off) if a.reg.kind != 'array' else a.off % sc
                            ta = a.syms.get(sc, z3.BitVecVal(0, 64)) + ((a.off - base) // sc)
                            tb = b.syms.get(sc, z3.BitVecVal(0, 64)) + ((b.off - base) // sc)
                            return Ptr(a.reg, base, {sc: simp(z3.If(c, ta, tb))})
                    if len(scs) == 0 and d != 0:
                        # same blob, different constant offsets: keep as alternatives
                        pass
        al = []
        for (c2, p) in (a.alts if isinstance(a, PtrIte) else [(True, a)]):
            al.append((band(c, c2), p))
        for (c2, p) in (b.alts if isinstance(b, PtrIte) else [(True, b)]):
            al.append((band(bnot(c), c2), p))
        # group identical
        out = []
        for c2, p in al:
            for i, (c3, q) in enumerate(out):
                if self.psame(p, q):
                    out[i] = (bor(c3, c2), q)
                    break
            else:
                out.append((c2, p))
        if len(out) == 1:
            return out[0][1]
        out = [(simp(cc), p) for cc, p in out]
        out = [(cc, p) for cc, p in out if cc is not False]
        if len(out) == 1:
            return out[0][1]
        return PtrIte(out)

    def psame(self, p, q):
        if isinstance(p, FnPtr) or isinstance(q, FnPtr):
            return isinstance(p, FnPtr) and isinstance(q, FnPtr) and p.fn is q.fn
        return p.reg is q.reg and p.off == q.off and p.inf == q.inf and set(p.syms) == set(q.syms) and all(z3.eq(p.syms[k], q.syms[k]) for k in p.syms)

    # ---------------------------------------------------------------- memory
    def alloc(self, st, name, size):
        r = Region(name, 'blob', size=size)
        st.mem[r.id] = Blob()
        return Ptr(r)

    def wlog(self, r, key):
        for l in self.wlogs:
            l.add((r, key))

    def deref(self, st, p, n, what):
        """yield list of (cond, Ptr) alternatives with obligations for null / bounds"""
        if isinstance(p, Undef):
            if not self.quiet:
                self.oblig(st, 'valid-pointer:' + what, 'safety', False)
            return []
        alts = p.alts if isinstance(p, PtrIte) else [(True, p)]
        out = []
        for c, q in alts:
            if isinstance(q, FnPtr):
                raise Unsupported('deref of function')
            if q.reg is None:
                if self.o['bounds']:
                    self.oblig(st, 'null-deref:' + what, 'safety', bnot(c))
                continue
            r = q.reg
            if r.kind == 'blob':
                if not q.syms:
                    if q.off < 0 or q.off + n > r.size:
                        if self.o['bounds']:
                            self.oblig(st, 'in-bounds:' + what, 'safety', bnot(c))
                        continue
                else:
                    if self.o['bounds'] and not self.quiet:
                        tot = self.total(q)
                        g = z3.ULE(tot, z3.BitVecVal(r.size - n, 64)) if r.size >= n else False
                        if len(q.syms) == 1:
                            (sc, t), = q.syms.items()
                            if sc > 0 and q.off >= 0 and q.off < sc:
                                # off + t*sc + n <= size
                                mx = (r.size - n - q.off) // sc if r.size - n - q.off >= 0 else -1
                                g = z3.ULE(t, z3.BitVecVal(mx, 64)) if mx >= 0 else False
                        self.oblig(st, 'in-bounds:' + what, 'safety', bor(bnot(c), g))
            elif r.kind == 'array':
                if self.o['bounds'] and not self.quiet and r.cap is not None:
                    idx, off, rest = split_idx(q)
                    g = z3.ULT(bv(idx if not isc(idx) else idx & MASK[64], 64), bv(r.cap, 64))
                    self.oblig(st, 'in-bounds:' + what, 'safety', bor(bnot(c), simp(g)))
            out.append((c, q))
        return out

    def lazyfix(self, st, p, n):
        r = p.reg
        if r.kind == 'lazy':
            sc = None
            for s in p.syms:
                sc = s if sc is None else min(sc, s)
            if r.stride is None:
                raise Unsupported('lazy region without stride')

    def load(self, st, p, n, ty, what='load'):
        alts = self.deref(st, p, n, what)
        if not alts:
            return UNDEF if ty.k != 'i' or True else None
        v = None
        for c, q in reversed(alts):
            x = self.load1(st, q, n, ty)
            v = x if v is None else self.ite(c, x, v, ty)
        return v

    def candidates(self, q, n):
        """blob pointer with symbolic part -> [(cond, offset)]"""
        r = q.reg
        res = [(True, q.off)]
        for sc, t in q.syms.items():
            nx = []
            if isinstance(t, int):
                raise Unsupported('candidates int')
            lo = 0
            for c, o in res:
                # offsets 0 <= o + k*sc <= size-n
                kmin = -(o // sc) if o >= 0 else (-o + sc - 1) // sc
                kmin = -(o // sc)
                kmax = (r.size - n - o) // sc
                if len(q.syms) > 1:
                    kmin = 0 if o >= 0 else kmin
                if kmax - kmin > 4200:
                    raise Unsupported('too many candidates in %s' % r.name)
                for k in range(kmin, kmax + 1):
                    nx.append((band(c, t == z3.BitVecVal(k & MASK[64], 64)), o + k * sc))
            res = nx
        out = []
        for c, o in res:
            if 0 <= o <= r.size - n:
                c = simp(c)
                if c is not False:
                    out.append((c, o))
        return out

    def load1(self, st, q, n, ty):
        r = q.reg
        if r.kind == 'lazy':
            self.lazyfix(st, q, n)
        if r.kind == 'array':
            return self.aload(st, q, n, ty)
        if r.id not in st.mem:
            if r.name.startswith('@'):
                for gv, rr in self.gvregs.items():
                    if rr is r:
                        self.gvregion(st, gv)
                        break
            else:
                raise Unsupported('region %s not in memory' % r.name)
        b = st.mem[r.id]
        if not q.syms:
            return self.bload(st, b, q.off, n, ty, r)
        cands = self.candidates(q, n)
        if not cands:
            return UNDEF
        v = None
        for c, o in reversed(cands):
            x = self.bload(st, b, o, n, ty, r)
            v = x if v is None else self.ite(c, x, v, ty)
        return v

    def tobv(self, v, nbytes):
        """cell value -> bitvector term/int of 8*nbytes"""
        if isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool):
            return v
        if isinstance(v, (bool, z3.BoolRef)):
            return bv(v, 8 * nbytes)
        if isinstance(v, Undef):
            return z3.BitVec(fresh('undef'), 8 * nbytes)
        if isinstance(v, Ptr) and v.reg is None and not v.syms:
            return v.off & MASK[64]
        return None

    def bload(self, st, b, off, n, ty, r):
        cell = b.cells.get(off)
        if cell is not None and cell[0] == n:
            return self.coerce(cell[1], n, ty)
        # assemble from bytes
        if cell is None and not any((o < off + n and o + c[0] > off) for o, c in self.overl(b, off, n)):
            # uninitialised: create a stable fresh value
            if ty.k == 'i':
                v = z3.BitVec(fresh('uninit_' + r.name), 8 * n)
                b.cells[off] = (n, v)
                return self.coerce(v, n, ty)
            return UNDEF
        parts = []
        i = off
        end = off + n
        while i < end:
            # find covering cell
            cov = None
            for o, c in self.overl(b, i, 1):
                cov = (o, c)
                break
            if cov is None:
                nxt = min([o for o, c in self.overl(b, i, end - i)] + [end])
                parts.append((z3.BitVec(fresh('uninit_' + r.name), 8 * (nxt - i)), nxt - i))
                b.cells[i] = (nxt - i, parts[-1][0])
                i = nxt
                continue
            o, c = cov
            lo = i - o
            ln = min(c[0] - lo, end - i)
            v = self.tobv(c[1], c[0])
            if v is None:
                if isinstance(c[1], PtrInt):
                    raise Unsupported('partial ptrint load')
                raise Unsupported('partial pointer load from %s+%d' % (r.name, off))
            if lo == 0 and ln == c[0]:
                parts.append((v, ln))
            elif isc(v):
                parts.append(((v >> (8 * lo)) & MASK[8 * ln], ln))
            else:
                parts.append((z3.Extract(8 * (lo + ln) - 1, 8 * lo, v), ln))
            i += ln
        if all(isc(v) for v, _ in parts):
            x = 0
            sh = 0
            for v, ln in parts:
                x |= v << sh
                sh += 8 * ln
            return self.coerce(x, n, ty)
        if len(parts) == 1:
            return self.coerce(simp(parts[0][0]), n, ty)
        return self.coerce(simp(z3.Concat(*[bv(v, 8 * ln) for v, ln in reversed(parts)])), n, ty)

    def overl(self, b, off, n):
        cs = b.cells
        if len(cs) <= 64:
            return [(o, c) for o, c in cs.items() if o < off + n and o + c[0] > off]
        out = []
        for o in range(off - 63, off + n):
            c = cs.get(o)
            if c is not None and o + c[0] > off:
                out.append((o, c))
        return out

    def coerce(self, v, n, ty):
        """cell value (n bytes) -> value of type ty"""
        if ty.k == 'p':
            if isinstance(v, (Ptr, PtrIte, FnPtr)):
                return v
            if isinstance(v, PtrInt):
                return v.p
            if isc(v):
                return Ptr(None, v) if v else NULL
            if isinstance(v, Undef):
                return v
            v2 = simp(v)
            if isc(v2):
                return Ptr(None, v2) if v2 else NULL
            return UNDEF
        if ty.k == 'i':
            if isinstance(v, (Ptr, PtrIte, FnPtr)):
                if isinstance(v, Ptr) and v.reg is None and not v.syms:
                    return v.off & MASK[64]
                return PtrInt(v)
            if isinstance(v, Undef):
                return UNDEF
            if isinstance(v, FPVal):
                return z3.BitVec(fresh('fp'), ty.w)
            w = ty.w
            if isinstance(v, (bool, z3.BoolRef)):
                if w == 1:
                    return v
                return bv(v, w) if not isinstance(v, bool) else int(v)
            if w < 8 * n:
                return self.trunc(v, 8 * n, w)
            return v
        if ty.k == 'f':
            return v if isinstance(v, FPVal) else FPVal()
        raise Unsupported('load of type ' + ty.k)

    def wblob(self, st, r):
        b = st.mem.get(r.id)
        if b is None:
            if r.name.startswith('@'):
                for gv, rr in self.gvregs.items():
                    if rr is r:
                        self.gvregion(st, gv)
                b = st.mem[r.id]
            else:
                raise Unsupported('store to dead region ' + r.name)
        nb = Blob(dict(b.cells))
        st.mem[r.id] = nb
        return nb

    def store(self, st, p, n, v, ty, what='store'):
        alts = self.deref(st, p, n, what)
        for c, q in alts:
            r = q.reg
            if r.const:
                raise Unsupported('store to constant ' + r.name)
            if r.kind == 'array':
                self.astore(st, q, n, v, ty, c)
                continue
            b = self.wblob(st, r)
            if not q.syms:
                self.wlog(r, (q.off, n))
                if c is True:
                    self.bstore(b, q.off, n, v)
                else:
                    old = self.bload(st, b, q.off, n, ty, r)
                    self.bstore(b, q.off, n, self.ite(c, v, old, ty))
            else:
                for c2, o in self.candidates(q, n):
                    self.wlog(r, (o, n))
                    old = self.bload(st, b, o, n, ty, r)
                    self.bstore(b, o, n, self.ite(band(c, c2), v, old, ty))

    def bstore(self, b, off, n, v):
        cs = b.cells
        cell = cs.get(off)
        if cell is not None and cell[0] == n:
            cs[off] = (n, v)
            return
        for o, c in self.overl(b, off, n):
            del cs[o]
            cv = None
            if o < off:
                ln = off - o
                cv = self.tobv(c[1], c[0])
                if cv is not None:
                    cs[o] = (ln, (cv & MASK[8 * ln]) if isc(cv) else z3.Extract(8 * ln - 1, 0, cv))
                # else partially overwritten pointer: leave undefined
            if o + c[0] > off + n:
                lo = off + n - o
                ln = c[0] - lo
                cv = self.tobv(c[1], c[0])
                if cv is not None:
                    cs[off + n] = (ln, (cv >> (8 * lo)) if isc(cv) else z3.Extract(8 * c[0] - 1, 8 * lo, cv))
        cs[off] = (n, v)

    # arrays: contents = dict wordoff -> z3 Array(BV64 -> BV(8*word))
    def aarr(self, st, r, wo):
        d = st.mem[r.id]
        a = d.get(wo)
        if a is None:
            a = z3.Array(fresh('%s.%d' % (r.name, wo)), z3.BitVecSort(64), z3.BitVecSort(8 * r.word))
            d[wo] = a
            self.keep.append(a)
        return a

    def aload(self, st, q, n, ty):
        r = q.reg
        idx, off, rest = split_idx(q)
        if rest:
            return self.arest(q, idx, off, rest, n, lambda qq: self.aload(st, qq, n, ty), ty)
        I = bv(idx & MASK[64] if isc(idx) else idx, 64)
        W = r.word
        if off + n > r.stride:
            raise Unsupported('array load spans elements')
        parts = []
        i = off
        while i < off + n:
            wo = (i // W) * W
            lo = i - wo
            ln = min(W - lo, off + n - i)
            s = z3.Select(self.aarr(st, r, wo), I)
            s = simp(s)
            if isc(s):
                s = z3.BitVecVal(s, 8 * W)
            if ln != W:
                s = z3.Extract(8 * (lo + ln) - 1, 8 * lo, s)
            parts.append(s)
            i += ln
        v = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        if ty.k == 'p':
            raise Unsupported('pointer load from symbolic array ' + r.name)
        v = simp(v)
        return self.coerce(v, n, ty)

    def arest(self, q, idx, off, rest, n, f, ty):
        # sub-element symbolic index: enumerate within the stride
        S = q.reg.stride
        (sc, t), = list(rest.items())[:1]
        if len(rest) > 1:
            raise Unsupported('two-level symbolic sub index')
        v = None
        W = S // sc
        base = {k: x for k, x in q.syms.items() if k != sc}
        for k in range(W - 1, -1, -1):
            o2 = q.off + k * sc
            if (off + k * sc) + n > S:
                continue
            x = f(Ptr(q.reg, o2, base))
            v = x if v is None else self.ite(simp(t == k), x, v, ty)
        self.inexact.add('sub-element index assumed within element')
        return v

    def astore(self, st, q, n, v, ty, c):
        r = q.reg
        idx, off, rest = split_idx(q)
        if rest:
            S = r.stride
            (sc, t), = rest.items()
            base = {k: x for k, x in q.syms.items() if k != sc}
            for k in range(S // sc):
                if off + k * sc + n <= S:
                    self.astore(st, Ptr(r, q.off + k * sc, base), n, v, ty, band(c, simp(t == k)))
            return
        I = bv(idx & MASK[64] if isc(idx) else idx, 64)
        W = r.word
        if off + n > r.stride:
            raise Unsupported('array store spans elements')
        bvv = self.tobv(v, n)
        if bvv is None:
            raise Unsupported('pointer store to symbolic array')
        bvv = bv(bvv, 8 * n)
        d = dict(st.mem[r.id])
        st.mem[r.id] = d
        i = off
        while i < off + n:
            wo = (i // W) * W
            lo = i - wo
            ln = min(W - lo, off + n - i)
            a = self.aarr(st, r, wo)
            part = z3.Extract(8 * (i - off + ln) - 1, 8 * (i - off), bvv) if ln != n else bvv
            if ln != W:
                old = z3.Select(a, I)
                ps = []
                if lo + ln < W:
                    ps.append(z3.Extract(8 * W - 1, 8 * (lo + ln), old))
                ps.append(part)
                if lo:
                    ps.append(z3.Extract(8 * lo - 1, 0, old))
                part = z3.Concat(*ps) if len(ps) > 1 else ps[0]
            if c is not True:
                part = z3.If(c, part, z3.Select(a, I))
            d[wo] = z3.Store(a, I, z3.simplify(part, mul2concat=True))
            self.wlog(r, ('A', wo))
            i += ln

    def memcpy(self, st, d, s, n, what):
        if isinstance(n, Undef):
            raise Unsupported('memcpy undef')
        n = n if isc(n) else simp(n)
        if isinstance(d, PtrIte) and not (isc(n) and n <= 64):
            raise Unsupported('memcpy to guarded ptr')
        if isc(n):
            if n == 0:
                return
            if isinstance(s, Undef):
                raise Unsupported('memcpy from undef')
            if isinstance(d, PtrIte) or isinstance(s, PtrIte) or s.reg is None or s.reg.kind != 'blob' or d.reg is None or d.reg.kind != 'blob' or s.syms or d.syms:
                # word-wise
                W = 8
                i = 0
                vals = []
                T = {}
                while i < n:
                    w = next(k for k in (8, 4, 2, 1) if k <= n - i)
                    if isinstance(s, Ptr) and s.reg is not None and s.reg.kind == 'array':
                        w = min(w, s.reg.word)
                    for q in [q for _, q in d.alts] if isinstance(d, PtrIte) else [d]:
                        if q.reg is not None and q.reg.kind == 'array':
                            w = min(w, q.reg.word)
                    t = irload.Ty()
                    t.k = 'i'
                    t.w = 8 * w
                    vals.append((i, w, t, self.load(st, ptr_add(s, i), w, t, what)))
                    i += w
                for i, w, t, v in vals:
                    self.store(st, ptr_add(d, i), w, v, t, what)
                return
            for p in (d, s):
                self.deref(st, p, n, what)
            sb = st.mem[s.reg.id]
            items = []
            for o, c in self.overl(sb, s.off, n) if n <= 64 else [(o, c) for o, c in sb.cells.items() if o < s.off + n and o + c[0] > s.off]:
                if o >= s.off and o + c[0] <= s.off + n:
                    items.append((o - s.off, c[0], c[1]))
                else:
                    a = max(o, s.off)
                    e = min(o + c[0], s.off + n)
                    v = self.tobv(c[1], c[0])
                    if v is None:
                        raise Unsupported('memcpy splits pointer')
                    lo = a - o
                    ln = e - a
                    items.append((a - s.off, ln, ((v >> (8 * lo)) & MASK[8 * ln]) if isc(v) else z3.Extract(8 * (lo + ln) - 1, 8 * lo, v)))
            db = self.wblob(st, d.reg)
            # clear destination range
            for o, c in [(o, c) for o, c in db.cells.items() if o < d.off + n and o + c[0] > d.off]:
                if o >= d.off and o + c[0] <= d.off + n:
                    del db.cells[o]
                else:
                    self.bstore(db, max(o, d.off), min(o + c[0], d.off + n) - max(o, d.off), UNDEF)
                    db.cells.pop(max(o, d.off))
            for o, ln, v in items:
                self.bstore(db, d.off + o, ln, v)
                self.wlog(d.reg, (d.off + o, ln))
            self.wlog(d.reg, (d.off, n)) if False else None
            return
        # symbolic length: whole-array copy into a fresh array region
        if isinstance(s, Ptr) and isinstance(d, Ptr) and s.reg is not None and d.reg is not None and s.reg.kind == 'array' and d.reg.kind in ('array', 'lazy'):
            i1, o1, r1 = split_idx(s)
            if d.reg.kind == 'lazy':
                d.reg.setstride(s.reg.stride)
                d.reg.kind = 'array'
                st.mem[d.reg.id] = {}
            i2, o2, r2 = split_idx(d)
            if isc(i1) and i1 == 0 and isc(i2) and i2 == 0 and o1 == 0 and o2 == 0 and d.reg.stride == s.reg.stride and getattr(d.reg, 'lenterm', None) is not None:
                dd = {}
                for wo in range(0, s.reg.stride, s.reg.word):
                    dd[wo] = self.aarr(st, s.reg, wo)
                    self.wlog(d.reg, ('A', wo))
                st.mem[d.reg.id] = dd
                return
        raise Unsupported('memcpy of symbolic length')

    # ---------------------------------------------------------------- merging
    def merge(self, fn, block, a, b):
        k = 0
        pa, pb = a.pc, b.pc
        while k < len(pa) and k < len(pb) and (pa[k] is pb[k] or z3.eq(pa[k], pb[k])):
            k += 1
        sa = pa[k:]
        sb = pb[k:]
        A = True
        for c in sa:
            A = band(A, c)
        B = True
        for c in sb:
            B = band(B, c)
        if sa and sb and z3.eq(z3.simplify(z3.Not(sa[0])), z3.simplify(sb[0])):
            cond = sa[0]
        else:
            cond = A
        n = State()
        d = simp(bor(A, B))
        n.pc = pa[:k] + ((d,) if d is not True else ())
        if cond is True:
            # sa empty: then b's suffix must be distinguishing
            cond = bnot(B)
        n.model = a.model if a.model is not None else b.model
        live = fn.live[block] if fn is not None and block is not None else None
        n.env = {}
        for key in (live if live is not None else a.env):
            if key in a.env and key in b.env:
                x, y = a.env[key], b.env[key]
                if x is y:
                    n.env[key] = x
                else:
                    n.env[key] = self.ite(cond, x, y, fn.tys.get(key) if fn is not None and isinstance(key, int) else None)
        n.mem = {}
        for rid, x in a.mem.items():
            y = b.mem.get(rid)
            if y is None or x is y:
                n.mem[rid] = x
                continue
            if isinstance(x, Blob):
                n.mem[rid] = self.mergeblob(cond, x, y)
            else:
                d = {}
                for wo in set(x) | set(y):
                    if wo not in x:
                        d[wo] = y[wo]
                    elif wo not in y:
                        d[wo] = x[wo]
                    elif z3.eq(x[wo], y[wo]):
                        d[wo] = x[wo]
                    else:
                        d[wo] = z3.If(cond, x[wo], y[wo])
                n.mem[rid] = d
        for rid, y in b.mem.items():
            if rid not in a.mem:
                n.mem[rid] = y
        if a.facts is b.facts:
            n.facts = a.facts
        else:
            ids = {id(f): f for f in b.facts}
            out = []
            for f in a.facts:
                if id(f) in ids:
                    out.append(f)
                else:
                    out.append((band(cond, f[0]),) + f[1:])
            ia = {id(f) for f in a.facts}
            for f in b.facts:
                if id(f) not in ia:
                    out.append((band(bnot(cond), f[0]),) + f[1:])
            n.facts = tuple(out)
        return n

    def mergeblob(self, cond, x, y):
        n = Blob()
        cx = x.cells
        cy = y.cells
        keys = set(cx) | set(cy)
        bad = set()
        for o in keys:
            a = cx.get(o)
            b = cy.get(o)
            if a is b:
                continue
            if a is None or b is None or a[0] != b[0]:
                bad.add(o)
        if bad:
            # align layouts: split overlapping cells on both sides at the union of the cut points
            cx = dict(cx)
            cy = dict(cy)
            for _ in range(8):
                cuts = set()
                for o, c in cx.items():
                    cuts.add(o)
                    cuts.add(o + c[0])
                for o, c in cy.items():
                    cuts.add(o)
                    cuts.add(o + c[0])
                ch = False
                for d in (cx, cy):
                    for o, c in list(d.items()):
                        inner = sorted(k for k in cuts if o < k < o + c[0]) if c[0] > 1 else []
                        if inner:
                            v = self.tobv(c[1], c[0])
                            del d[o]
                            if v is not None:
                                pts = [o] + inner + [o + c[0]]
                                for i in range(len(pts) - 1):
                                    lo = pts[i] - o
                                    ln = pts[i + 1] - pts[i]
                                    d[pts[i]] = (ln, ((v >> (8 * lo)) & MASK[8 * ln]) if isc(v) else z3.Extract(8 * (lo + ln) - 1, 8 * lo, v))
                            ch = True
                if not ch:
                    break
        for o in set(cx) | set(cy):
            a = cx.get(o)
            b = cy.get(o)
            if a is None:
                n.cells[o] = b
            elif b is None:
                n.cells[o] = a
            elif a is b or a[1] is b[1]:
                n.cells[o] = a
            else:
                t = irload.Ty()
                t.k = 'i'
                t.w = 8 * a[0]
                av, bv_ = a[1], b[1]
                if isinstance(av, (bool, z3.BoolRef)) != isinstance(bv_, (bool, z3.BoolRef)):
                    av = self.tobv(av, a[0])
                    bv_ = self.tobv(bv_, a[0])
                n.cells[o] = (a[0], self.ite(cond, av, bv_, t))
        return n

    def mergeall(self, fn, block, sts):
        if len(sts) == 1:
            return sts[0]
        # merge pairwise, latest first (nested ifs share longer prefixes)
        sts = list(sts)
        while len(sts) > 1:
            b = sts.pop()
            # best partner: longest common prefix
            best = -1
            bi = 0
            for i, a in enumerate(sts):
                k = 0
                while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
                    k += 1
                if k >= best:
                    best = k
                    bi = i
            a = sts.pop(bi)
            sts.append(self.merge(fn, block, a, b))
        return sts[0]

    # ---------------------------------------------------------------- functions
    def call_fn(self, fn, args, st):
        """execute fn; returns list of (state, retval)"""
        if fn.decl:
            raise Unsupported('call to external ' + self.m.dem(fn))
        self.m.load_fn(fn)
        self.executed.add(fn.name)
        if len(self.callstack) > 120:
            raise Unsupported('call depth (recursion) in ' + self.m.dem(fn))
        saved = st.env
        saved_loc = self.curloc
        st.env = {}
        for pid, a in zip(fn.params, args):
            st.env[pid] = a
        self.callstack.append(fn)
        fr = {'pending': {0: [st]}, 'rets': []}
        try:
            self.run_wto(fn, fn.wto, fr)
        finally:
            self.callstack.pop()
            self.curloc = saved_loc
        rets = fr['rets']
        if not rets:
            return []
        if len(rets) > 1 and self.o['merge']:
            for s, v in rets:
                s.env = {'ret': v}
            m = None
            rt = None
            class F:
                pass
            f = F()
            rty = self.rettype(fn)
            f.tys = {'ret': rty}
            f.live = {0: {'ret'}}
            ss = [s for s, v in rets]
            m = self._mergeret(ss, rty)
            rets = [(m, m.env.get('ret'))]
        out = []
        for s, v in rets:
            s.env = dict(saved)
            out.append((s, v))
        return out

    def rettype(self, fn):
        if fn.rty is None:
            t = irload.RetTy(irload.GVT(fn.ref))
            fn.rty = self.m.ty(t)
        return fn.rty

    def _mergeret(self, sts, rty):
        class F:
            pass
        f = F()
        f.tys = {0: rty}
        f.live = {0: {0}}
        for s in sts:
            s.env = {0: s.env['ret']}
        m = self.mergeall(f, 0, sts)
        m.env = {'ret': m.env.get(0)}
        return m

    def run_wto(self, fn, wto, fr):
        for e in wto:
            if isinstance(e, tuple):
                self.run_loop(fn, e, fr)
            else:
                sts = fr['pending'].pop(e, None)
                if not sts:
                    continue
                if self.o['merge'] and len(sts) > 1:
                    sts = [self.mergeall(fn, e, sts)]
                for s in sts:
                    self.run_block(fn, e, s, fr)

    def run_loop(self, fn, e, fr):
        h, sub = e
        pend = fr['pending']
        sts = pend.pop(h, None)
        if not sts:
            return
        if self.o['merge'] and len(sts) > 1:
            sts = [self.mergeall(fn, h, sts)]
        mode = self.o['loops']
        if mode == 'inv':
            for s in sts:
                if not self.quiet and 'unroll_first' in self.o and self.loops_decided < self.o['unroll_first']:
                    # the proof says that its first loops are followed exactly (max_unroll still applies)
                    self.loops_decided += 1
                    self.unroll(fn, e, fr, [s])
                    continue
                u0 = self.n_unknown
                conc = self.loop_is_concrete(fn, e, s)
                if not conc and self.n_unknown > u0 and not self.quiet:
                    # an undecided exit test may have hidden that the loop is a plain bounded one
                    self.probe_unknown.append('%s in %s' % (h, self.m.dem(fn)))
                if conc:
                    self.unroll(fn, e, fr, [s])
                else:
                    self.loop_inv(fn, e, fr, s)
        else:
            self.unroll(fn, e, fr, sts)

    def unroll(self, fn, e, fr, sts):
        h, sub = e
        pend = fr['pending']
        it = 0
        while sts:
            it += 1
            if it > self.o['max_unroll']:
                raise Unsupported('unwinding limit %d in %s' % (self.o['max_unroll'], self.m.dem(fn)))
            if self.o['merge'] and len(sts) > 1:
                sts = [self.mergeall(fn, h, sts)]
            for s in sts:
                self.run_block(fn, h, s, fr)
            self.run_wto(fn, sub, fr)
            sts = pend.pop(h, None)
        self.unrolled += it

    def loop_is_concrete(self, fn, e, s):
        """a loop is unrolled when running it needs no undecided exit: probe with a cheap dry run"""
        h, sub = e
        body = self.loop_blocks(e)
        self.quiet += 1
        wl = self.wlogs
        cl = self.cmplogs
        self.wlogs = []
        self.cmplogs = []
        obl = len(self.obls)
        try:
            fr = {'pending': {h: [s.copy()]}, 'rets': [], 'probe': body}
            it = 0
            sts = fr['pending'].pop(h)
            while sts:
                it += 1
                if it > 70:
                    return False
                for x in sts:
                    self.run_block(fn, h, x, fr)
                self.run_wto(fn, sub, fr)
                sts = fr['pending'].pop(h, None)
                if sts and len(sts) > 1:
                    sts = [self.mergeall(fn, h, sts)]
                outs = [b for b in fr['pending'] if b not in body]
                if (outs or fr['rets']) and sts and it >= self.o.get('probe_exits', 3):
                    return False
            return True
        except Unsupported:
            return False
        finally:
            self.quiet -= 1
            self.wlogs = wl
            self.cmplogs = cl

    def loop_blocks(self, e):
        s = {e[0]}
        for x in e[1]:
            if isinstance(x, tuple):
                s |= self.loop_blocks(x)
            else:
                s.add(x)
        return s

    # ------------------------------------------------- invariant loops
    def havoc_value(self, v0, v1, ty, name):
        """fresh value shaped like v0 (entry) / v1 (after one iteration)"""
        if isinstance(v0, (Ptr,)) or (ty is not None and ty.k == 'p'):
            if isinstance(v0, FnPtr):
                return v0
            if not isinstance(v0, Ptr):
                raise Unsupported('loop pointer variable is not a plain pointer')
            if v0.reg is None:
                if isinstance(v1, Ptr) and v1.reg is not None:
                    raise Unsupported('nullable loop pointer')
                return v0
            if v0.inf:
                return v0
            if v1 is None:
                return v0
            if isinstance(v1, PtrIte):
                raise Unsupported('loop pointer becomes guarded')
            if not isinstance(v1, Ptr) or v1.reg is not v0.reg:
                raise Unsupported('loop pointer changes region')
            if self.psame(v0, v1):
                return v0
            r = v0.reg
            scs = set(v0.syms) | set(v1.syms)
            d = abs(v1.off - v0.off)
            if r.kind == 'array':
                sc = r.stride
                if any(k % sc for k in scs) or d % sc:
                    raise Unsupported('loop pointer stride')
                return Ptr(r, v0.off % sc, {sc: z3.BitVec(fresh(name), 64)})
            if scs:
                if len(scs) > 1:
                    raise Unsupported('loop pointer scales')
                sc = next(iter(scs))
            else:
                sc = d
            if sc == 0 or d % sc:
                raise Unsupported('loop pointer stride')
            return Ptr(r, v0.off % sc, {sc: z3.BitVec(fresh(name), 64)})
        if isinstance(v0, (bool, z3.BoolRef)):
            return z3.Bool(fresh(name))
        if isinstance(v0, FPVal):
            return FPVal()
        if isinstance(v0, PtrInt):
            raise Unsupported('loop var ptrint')
        if isinstance(v0, tuple):
            raise Unsupported('loop aggregate')
        w = ty.w if ty is not None else (v0.size() if not isc(v0) else None)
        if w is None:
            raise Unsupported('width')
        return z3.BitVec(fresh(name), w)

    def loop_inv(self, fn, e, fr, S0):
        h, sub = e
        blk = fn.blocks[h]
        body = self.loop_blocks(e)
        phis = [p.id for p in blk.phis]
        name0 = self.m.dem(fn)[:60]

        def run_body(S, quiet, frx=None):
            f2 = {'pending': {h: [S]}, 'rets': []} if frx is None else frx
            f2['pending'][h] = [S]
            if quiet:
                self.quiet += 1
            try:
                sts = f2['pending'].pop(h)
                for x in sts:
                    self.run_block(fn, h, x, f2)
                self.run_wto(fn, sub, f2)
                back = f2['pending'].pop(h, [])
            finally:
                if quiet:
                    self.quiet -= 1
            return back, f2
        # ---- 1. modified set by fixpoint of dry runs
        modmem = {}      # (region,key) -> None
        modphi = set()
        shape = {}       # phi/cell -> after-iteration value for pointer shapes
        for rnd in range(12):
            S1 = S0.copy()
            S1.model = None
            for p in phis:
                if p in modphi:
                    S1.env[p] = self.havoc_value(S0.env[p], shape.get(p), fn.tys[p], 'h')
            self.havoc_mem(S0, S1, modmem, shape)
            log = set()
            self.wlogs.append(log)
            cmpl = []
            self.cmplogs.append(cmpl)
            self.probing += 1
            try:
                back, _ = run_body(S1.copy(), True)
            finally:
                self.probing -= 1
                self.wlogs.pop()
                self.cmplogs.pop()
            ch = False
            for (r, key) in log:
                if r.id in S0.mem and (r, key) not in modmem:
                    modmem[(r, key)] = None
                    ch = True
            for b in back:
                for p in phis:
                    x, y = S1.env[p], b.env[p]
                    if not self.vsame(x, y):
                        if p not in modphi:
                            modphi.add(p)
                            shape[p] = y
                            ch = True
                        elif isinstance(y, (PtrIte,)) or (isinstance(y, Ptr) and isinstance(x, Ptr) and not self.pshape(x, y)):
                            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and x.reg is not None and x.reg.kind == 'array':
                                shape[p] = y
                            else:
                                raise Unsupported('loop pointer shape')
                for (r, key) in list(modmem):
                    if r.id in S0.mem and isinstance(S0.mem[r.id], Blob):
                        y = b.mem[r.id].cells.get(key[0])
                        if y is not None and isinstance(y[1], (Ptr, PtrIte)):
                            ck = (r, key)
                            x = S1.mem[r.id].cells.get(key[0])
                            if x is not None and isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and self.psame(x[1], y[1]):
                                continue
                            if ck not in shape:
                                shape[ck] = y[1]
                                ch = True
            if not ch:
                break
        else:
            raise Unsupported('loop write set does not stabilise')
        # ---- 2. havoced state
        SH = S0.copy()
        SH.model = None
        for p in phis:
            if p in modphi:
                SH.env[p] = self.havoc_value(S0.env[p], shape.get(p), fn.tys[p], 'lv%d' % p)
        self.havoc_mem(S0, SH, modmem, shape)
        # loop variables (as getters)
        lv = []
        for p in phis:
            if p in modphi:
                lv.append(('phi%d' % p, (lambda s, p=p: s.env[p]), fn.tys[p]))
        for (r, key) in modmem:
            if r.id in S0.mem and isinstance(S0.mem[r.id], Blob) and key[1] in (4, 8, 2, 1):
                c0 = S0.mem[r.id].cells.get(key[0])
                if c0 is None or c0[0] != key[1]:
                    continue
                t = irload.Ty()
                t.k = 'p' if isinstance(c0[1], Ptr) and c0[1].reg is not None else 'i'
                t.w = 8 * key[1]
                lv.append(('%s+%d' % (r.name, key[0]), (lambda s, r=r, k=key: s.mem[r.id].cells[k[0]][1] if k[0] in s.mem[r.id].cells and s.mem[r.id].cells[k[0]][0] == k[1] else None), t))

        def asint(v, t):
            """loop variable as (term, width)"""
            if v is None or isinstance(v, (Undef, Opaque, FPVal, FnPtr, PtrIte, PtrInt, tuple)):
                return None
            if isinstance(v, Ptr):
                if v.reg is None:
                    return None
                if v.reg.kind == 'array':
                    i, o, rest = split_idx(v)
                    return (bv(i & MASK[64] if isc(i) else i, 64), 64)
                if len(v.syms) == 1:
                    (sc, tt), = v.syms.items()
                    return (bv(tt, 64) + v.off // sc, 64)
                return None
            if isinstance(v, (bool, z3.BoolRef)):
                return None
            w = t.w
            return (bv(v, w), w)
        ints = []
        ptr_into = {}
        for (n, g, t) in lv:
            if isinstance(g(SH), Ptr) and g(SH).reg is not None:
                ptr_into[n] = g(SH).reg.name
            a = asint(g(SH), t)
            b = asint(g(S0), t)
            if a is None:
                continue
            if b is None:
                v0 = g(S0)
                vh = g(SH)
                if isinstance(v0, Ptr) and isinstance(vh, Ptr) and v0.reg is vh.reg and not v0.syms and len(vh.syms) == 1:
                    (sc, tt), = vh.syms.items()
                    b = (z3.BitVecVal((v0.off // sc) & MASK[64], 64), 64)
                else:
                    continue
            ints.append((n, (lambda s, g=g, t=t, vh=g(SH): self._asint2(g(s), t, vh)), b[0], a[1], a[0]))
        cands = []
        hv = set()
        for (n, g, b0, w, ah) in ints:
            for x in self.consts_of(ah):
                hv.add(x)
        bounds = {}
        for (A, B) in cmpl:
            for (x, y) in ((A, B), (B, A)):
                if not (self.consts_of(y) & hv) and (not self.consts_of(y, prefix='h!')):
                    if not z3.is_bv_value(x):
                        bounds.setdefault(y.size(), {})[y.get_id()] = y
        for (n, g, b0, w, ah) in ints:
            if not self.o['inv_mem'] and not n.startswith('phi'):
                continue   # no guesses about memory cells: the driver states what it needs
            cands.append(('%s==%s' % (n, b0), lambda s, g=g, b0=b0: g(s) == b0))
            cands.append(('%s>=%s' % (n, b0), lambda s, g=g, b0=b0: z3.UGE(g(s), b0)))
            cands.append(('%s<=%s' % (n, b0), lambda s, g=g, b0=b0: z3.ULE(g(s), b0)))
            if w == 32:
                cands.append(('%s s>=%s' % (n, b0), lambda s, g=g, b0=b0: g(s) >= b0))
            for B in list(bounds.get(w, {}).values())[:24]:
                if z3.eq(B, b0):
                    continue
                cands.append(('%s<=%s' % (n, B), lambda s, g=g, B=B: z3.ULE(g(s), B)))
                if w == 32:
                    cands.append(('%s s<=%s' % (n, B), lambda s, g=g, B=B: g(s) <= B))
        if self.o['inv_pairs'] and self.o['inv_mem'] and len(ints) <= 12:
            for (a, b) in itertools.combinations(ints, 2):
                def z(t, w):
                    return t if w == 64 else z3.ZeroExt(64 - w, t)
                (n1, g1, b1, w1, _), (n2, g2, b2, w2, _) = a, b
                cands.append(('%s~%s' % (n1, n2), lambda s, g1=g1, g2=g2, b1=b1, b2=b2, w1=w1, w2=w2: z(g1(s), w1) - z(b1, w1) == z(g2(s), w2) - z(b2, w2)))
                cands.append(('%s~-%s' % (n1, n2), lambda s, g1=g1, g2=g2, b1=b1, b2=b2, w1=w1, w2=w2: z(g1(s), w1) - z(b1, w1) == z(b2, w2) - z(g2(s), w2)))
        def qbody(s, tf, args):
            iv = z3.BitVec(fresh('q'), 64)
            self.keep.append(iv)
            s2 = s.copy()
            s2.model = None
            return iv, self.eval_pred(s2, tf, args + [iv])

        def assume_q(c, s):
            iv, b = c[1](s)
            b = bl(simp(b))
            if not z3.is_true(b):
                s.facts = s.facts + ((True, z3.BitVecVal(0, 64), z3.BitVecVal(MASK[64], 64), iv, b),)

        all_ints = ints
        for ti, (ar, tf, ctx) in enumerate(self.loop_templates):
            reg = self.loop_over.get(ti)
            ints = all_ints if reg is None else [x for x in all_ints if ptr_into.get(x[0], '').startswith(reg)]
            if ar == 0:
                cands.append(('T%d' % ti, lambda s, tf=tf, ctx=ctx: self.eval_pred(s, tf, [ctx])))
            elif ar == 1:
                for (n, g, b0, w, ah) in ints:
                    cands.append(('T%d(%s)' % (ti, n), lambda s, tf=tf, ctx=ctx, g=g, w=w: self.eval_pred(s, tf, [ctx, g(s) if w == 64 else z3.ZeroExt(64 - w, g(s))])))
            elif ar == 2:
                for (a, b) in itertools.permutations(ints, 2):
                    cands.append(('T%d(%s,%s)' % (ti, a[0], b[0]), lambda s, tf=tf, ctx=ctx, a=a, b=b: self.eval_pred(s, tf, [ctx, a[1](s) if a[3] == 64 else z3.ZeroExt(64 - a[3], a[1](s)), b[1](s) if b[3] == 64 else z3.ZeroExt(64 - b[3], b[1](s))])))

            elif ar == 10:   # quantified: for all i
                cands.append(('Q%d' % ti, lambda s, tf=tf, ctx=ctx: qbody(s, tf, [ctx]), True))
            elif ar == 11:   # quantified, over every loop variable
                for (n, g, b0, w, ah) in ints:
                    cands.append(('Q%d(%s)' % (ti, n), lambda s, tf=tf, ctx=ctx, g=g, w=w: qbody(s, tf, [ctx, g(s) if w == 64 else z3.ZeroExt(64 - w, g(s))]), True))
        ints = all_ints

        def evalc(c, s):
            try:
                v = c[1](s)
            except Unsupported:
                return None
            if len(c) == 3 and v is not None:
                v = v[1]
            if v is None:
                return None
            if isinstance(v, bool):
                return z3.BoolVal(v)
            return v
        # entry filter
        alive = []
        if self.probing and self.o.get('probe_fast'):
            cands = []      # only the set of changed cells is wanted
        for c in cands:
            v = evalc(c, S0)
            if v is None:
                continue
            if self.prove(S0, v) or (c[0][0] in 'TQ' and self.prove_hard(S0, v, c[0])):
                alive.append(c)
            elif self.o['verbose'] and c[0][0] in 'TQ':
                print('      entry drops', c[0], file=sys.stderr)
        # inductive filter
        rounds = 0
        while True:
            rounds += 1
            S1 = SH.copy()
            hyp = []
            for c in alive:
                if len(c) == 3:
                    assume_q(c, S1)
                    hyp.append(True)
                    continue
                v = evalc(c, S1)
                if v is None:
                    hyp.append(None)
                    continue
                v = simp(v)
                hyp.append(v)
                if v is not True and v is not False:
                    S1.pc = S1.pc + (v,)
            back, _ = run_body(S1, True)
            drop = set()
            for b in back:
                vs = []
                for i, c in enumerate(alive):
                    if i in drop:
                        continue
                    v = evalc(c, b)
                    if v is None or hyp[i] is None:
                        drop.add(i)
                        continue
                    vs.append((i, v))
                drop |= self.refute_many(b, vs, alive)
            if not drop:
                break
            if self.o['verbose']:
                dd = [alive[i][0] for i in sorted(drop) if alive[i][0][0] in 'TQ']
                if dd:
                    print('      round', rounds, 'drops', dd, file=sys.stderr)
            alive = [c for i, c in enumerate(alive) if i not in drop]
            if rounds > 40:
                raise Unsupported('houdini does not converge')
        S1 = SH.copy()
        for c in alive:
            if len(c) == 3:
                assume_q(c, S1)
                continue
            v = simp(evalc(c, S1))
            if v is True:
                continue
            if v is False:
                return
            S1.pc = S1.pc + (v,)
        self.loops_inv.append((name0, self.loc_str(blk), [c[0] for c in alive]))
        if self.o['verbose']:
            print('    loop in', name0, 'kept', [c[0] for c in alive], file=sys.stderr)
        # ---- final run with obligations; exits stay in fr
        run_body(S1, False, fr)

    def loc_str(self, blk):
        for i in blk.ins:
            if i.line:
                return '%s:%d' % ((i.file or '?').split('/')[-1], i.line)
        return '?'

    def _asint2(self, v, t, vh):
        if isinstance(v, Ptr) and isinstance(vh, Ptr) and v.reg is not None and v.reg.kind != 'array':
            (sc, tt), = vh.syms.items()
            if not v.syms:
                return z3.BitVecVal((v.off // sc) & MASK[64], 64)
            return bv(v.syms[sc], 64) + v.off // sc
        if isinstance(v, Ptr):
            i, o, rest = split_idx(v)
            return bv(i & MASK[64] if isc(i) else i, 64)
        return bv(v, t.w)

    def pshape(self, x, y):
        return x.reg is y.reg and set(k for k in x.syms) == set(k for k in y.syms)

    def vsame(self, x, y):
        if x is y:
            return True
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return self.psame(x, y)
        if isc(x) and isc(y):
            return x == y
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            return z3.eq(x, y) or z3.eq(z3.simplify(x), z3.simplify(y))
        return False

    def consts_of(self, e, prefix=None):
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if prefix is None or n.startswith(prefix):
                    out.add(n)
            st.extend(x.children())
        return out

    def havoc_mem(self, S0, S1, modmem, shape):
        for (r, key) in modmem:
            if r.id not in S0.mem:
                continue
            x = S0.mem[r.id]
            if isinstance(x, Blob):
                b = self.wblob(S1, r)
                c0 = x.cells.get(key[0])
                t = irload.Ty()
                t.k = 'i'
                t.w = 8 * key[1]
                if c0 is not None and c0[0] == key[1] and isinstance(c0[1], (Ptr, FnPtr, PtrIte)):
                    sh = shape.get((r, key))
                    v = c0[1]
                    if sh is not None:
                        try:
                            v = self.havoc_value(c0[1], sh, None, 'hm')
                        except Unsupported:
                            if not self.o.get('forget_pointers'):
                                raise
                            v = OPAQUE      # any later use of the cell is unsupported
                    self.bstore(b, key[0], key[1], v)
                elif c0 is not None and c0[0] == key[1] and isinstance(c0[1], FPVal):
                    self.bstore(b, key[0], key[1], FPVal())
                else:
                    sh = shape.get((r, key))
                    if isinstance(sh, (Ptr, PtrIte)):
                        # pointer written in the loop over an uninitialised / non pointer cell
                        self.bstore(b, key[0], key[1], UNDEF)
                    else:
                        self.bstore(b, key[0], key[1], z3.BitVec(fresh('hm'), 8 * key[1]))
            else:
                d = dict(S1.mem[r.id])
                S1.mem[r.id] = d
                d[key[1]] = z3.Array(fresh('%s.%d' % (r.name, key[1])), z3.BitVecSort(64), z3.BitVecSort(8 * r.word))
                self.keep.append(d[key[1]])

    def eval_pred(self, st, f, args):
        s = st.copy()
        self.quiet += 1
        wl, cl = self.wlogs, self.cmplogs
        self.wlogs = []
        self.cmplogs = []
        om = self.o['loops'], self.o['merge']
        self.o['merge'] = True
        self.in_pred += 1
        try:
            r = self.call_fn(f.fn, args, s)
        finally:
            self.in_pred -= 1
            self.quiet -= 1
            self.wlogs, self.cmplogs = wl, cl
            self.o['loops'], self.o['merge'] = om
        if len(r) != 1:
            raise Unsupported('predicate with %d results' % len(r))
        v = r[0][1]
        if isinstance(v, Undef):
            raise Unsupported('undef predicate')
        return v if isinstance(v, (bool, z3.BoolRef)) else (v != 0)

    def instantiate(self, st_pc, facts, goal, extra=(), rounds=3, limit=4000):
        """ground instances of assumed universal facts by array index terms"""
        if not facts:
            return []
        out = []
        seen_inst = set()
        terms_by_root = {}
        visited = set()

        def roots(a, acc):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE:
                roots(a.arg(0), acc)
            elif k == z3.Z3_OP_ITE:
                roots(a.arg(1), acc)
                roots(a.arg(2), acc)
            else:
                acc.add(a.get_id())

        def collect(e):
            st = [e]
            while st:
                x = st.pop()
                i = x.get_id()
                if i in visited:
                    continue
                visited.add(i)
                self.keep.append(x)
                if z3.is_app(x):
                    k = x.decl().kind()
                    if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                        acc = set()
                        roots(x.arg(0), acc)
                        for r in acc:
                            terms_by_root.setdefault(r, {})[x.arg(1).get_id()] = x.arg(1)
                    st.extend(x.children())
        for c in st_pc:
            collect(c)
        collect(goal)
        for e in extra:
            collect(e)
        froots = {}
        for f in facts:
            g, lo, hi, iv, body = f
            acc = set()
            st = [body]
            sn = set()
            while st:
                x = st.pop()
                if x.get_id() in sn:
                    continue
                sn.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_SELECT and self.mentions(x.arg(1), iv):
                        roots(x.arg(0), acc)
                    st.extend(x.children())
            froots[id(f)] = acc
        for rnd in range(rounds):
            new = []
            for f in facts:
                g, lo, hi, iv, body = f
                acc = froots[id(f)]
                ts = {}
                for r in acc:
                    ts.update(terms_by_root.get(r, {}))
                for t in ts.values():
                    key = (id(f), t.get_id())
                    if key in seen_inst:
                        continue
                    seen_inst.add(key)
                    self.keep.append(t)
                    inst = z3.Implies(z3.And(z3.ULE(lo, t), z3.ULT(t, hi)), z3.substitute(body, (iv, t)))
                    if g is not True:
                        inst = z3.Implies(g, inst)
                    inst = z3.simplify(inst, mul2concat=True)
                    if z3.is_true(inst):
                        continue
                    new.append(inst)
            if not new:
                break
            out.extend(new)
            if len(out) > limit:
                break
            for n in new:
                collect(n)
        return out

    def mentions(self, e, v):
        st = [e]
        sn = set()
        while st:
            x = st.pop()
            if x.get_id() in sn:
                continue
            sn.add(x.get_id())
            if z3.eq(x, v):
                return True
            st.extend(x.children())
        return False

    def prove(self, st, goal):
        goal = simp(goal)
        if goal is True:
            return True
        if goal is False:
            return self.check(list(st.pc)) == z3.unsat
        for rounds in self.rounds_of(st):
            extra = self.instantiate(st.pc, st.facts, goal, rounds=rounds)
            r = self.check(list(st.pc) + extra + [z3.simplify(z3.Not(goal))])
            if r == z3.unsat:
                return True
        return False

    def rounds_of(self, st):
        """a proof from few instances of the assumed facts is a proof: try those first"""
        return (1, 3) if st.facts else (3,)

    def prove_hard(self, st, goal, what=''):
        """like prove, for invariant candidates on which the incremental solver gave up: a solver of its own, more time; notes when nothing is decided"""
        goal = simp(goal)
        if goal is True:
            return True
        g = z3.BoolVal(False) if goal is False else goal
        t0 = time.time()
        r = z3.unknown
        extra, last = [], 0
        for budget, rounds in ((3000, 1), (3000, 2), (3000, 3), (20000, 3), (60000, 3)):
            if self.hard_left <= 0:
                break
            if rounds != last:
                extra = self.instantiate(st.pc, st.facts, g, rounds=rounds)
                last = rounds
            s = z3.SolverFor('QF_AUFBV') if budget != 20000 else z3.Solver()
            s.set('timeout', int(min(budget, 1000 * self.hard_left) + 1))
            s.set('random_seed', budget)
            s.add(*([c for c in st.pc if c is not True] + extra + [z3.simplify(z3.Not(g))]))
            t1 = time.time()
            r = s.check()
            if r == z3.unknown and self.cvc5 and budget == 3000 and self.cvc5(s.assertions(), 5):
                r = z3.unsat
            self.hard_left -= time.time() - t1
            if r == z3.unsat or (r == z3.sat and rounds == 3):
                break
            r = z3.unknown
        self.nq += 1
        self.tq += time.time() - t0
        if r == z3.unknown:
            self.inv_unknown.append(what)
            if self.o['verbose']:
                print('      candidate not decided', what, file=sys.stderr)
        return r == z3.unsat

    def refute_many(self, st, vs, cands):
        """indices of goals not provable in st"""
        drop = set()
        todo = []
        for i, v in vs:
            v = simp(v)
            if v is True:
                continue
            if v is False:
                v = z3.BoolVal(False)
            todo.append((i, v))
        while todo:
            allg = z3.And(*[v for _, v in todo]) if len(todo) > 1 else todo[0][1]
            if st.facts and self.check(list(st.pc) + self.instantiate(st.pc, st.facts, allg, rounds=1) + [z3.Not(allg)]) == z3.unsat:
                return drop
            extra = self.instantiate(st.pc, st.facts, allg)
            r = self.check(list(st.pc) + extra + [z3.Not(allg)])
            if r == z3.unsat:
                return drop
            if r == z3.sat:
                m = self.solver.model()
                nd = [i for i, v in todo if not z3.is_true(m.eval(v, model_completion=True))]
                if not nd:
                    nd = [todo[0][0]]
                drop |= set(nd)
                todo = [(i, v) for i, v in todo if i not in drop]
            else:
                # unknown: test one by one
                for i, v in todo:
                    if not self.prove(st, v) and not ((self.o['inv_mem'] or cands[i][0][0] in 'TQ') and self.prove_hard(st, v, cands[i][0])):
                        drop.add(i)
                return drop
        return drop

    # ---------------------------------------------------------------- block
    def edge(self, fn, frm, to, st, fr):
        b = fn.blocks[to]
        if b.phis:
            vals = []
            for p in b.phis:
                for (pb, o) in p.ops:
                    if pb == frm:
                        vals.append((p.id, self.val(st, o)))
                        break
                else:
                    raise Unsupported('phi')
            for i, v in vals:
                st.env[i] = v
        fr['pending'].setdefault(to, []).append(st)

    def run_block(self, fn, bi, st, fr, start=0):
        b = fn.blocks[bi]
        ins = b.ins
        n = len(ins)
        k = start
        while k < n:
            I = ins[k]
            k += 1
            op = I.op
            if I.line:
                self.curloc = (I.file, I.line, fn.name)
            self.steps += 1
            if op in ('call', 'invoke'):
                res = self.do_call(st, I, fn)
                if op == 'invoke':
                    for s, v in res:
                        s.env[I.id] = v
                        self.edge(fn, bi, b.succs[0], s, fr)
                    return
                if len(res) == 1:
                    st, v = res[0]
                    st.env[I.id] = v
                    continue
                for s, v in res:
                    s.env[I.id] = v
                    self.run_block(fn, bi, s, fr, k)
                return
            if op == 'br':
                if not I.ops:
                    self.edge(fn, bi, b.succs[0], st, fr)
                    return
                c = self.val(st, I.ops[0])
                if isinstance(c, Undef):
                    c = z3.Bool(fresh('undefb'))
                    self.inexact.add('branch on undef')
                c = simp(c)
                t, f = b.succs[0], b.succs[1]
                if c is True or (c is not False and t == f):
                    self.edge(fn, bi, t, st, fr)
                    return
                if c is False:
                    self.edge(fn, bi, f, st, fr)
                    return
                nc = simp(z3.Not(c))
                ft = self.feasible(st, c)
                ff = True if not ft else self.feasible(st, nc)
                if ft and ff:
                    s2 = st.copy()
                    st.pc = st.pc + (c,)
                    s2.pc = s2.pc + (nc,)
                    if st.model is not None:
                        pass
                    self.edge(fn, bi, t, st, fr)
                    self.edge(fn, bi, f, s2, fr)
                elif ft:
                    self.edge(fn, bi, t, st, fr)
                elif ff:
                    self.edge(fn, bi, f, st, fr)
                return
            if op == 'switch':
                v = self.val(st, I.ops[0])
                d, cases, w = I.x
                if isc(v):
                    v = int(v)
                    for cv, cb in cases:
                        if cv == v:
                            d = cb
                            break
                    self.edge(fn, bi, d, st, fr)
                    return
                v = bv(v, w)
                bytgt = {}
                for cv, cb in cases:
                    bytgt.setdefault(cb, []).append(v == z3.BitVecVal(cv, w))
                dn = simp(z3.And(*[v != z3.BitVecVal(cv, w) for cv, cb in cases])) if cases else True
                for cb, cs in bytgt.items():
                    c = simp(z3.Or(*cs))
                    if self.feasible(st, c):
                        s2 = st.copy()
                        if c is not True:
                            s2.pc = s2.pc + (c,)
                        self.edge(fn, bi, cb, s2, fr)
                if self.feasible(st, dn):
                    s2 = st.copy()
                    if dn is not True:
                        s2.pc = s2.pc + (dn,)
                    self.edge(fn, bi, d, s2, fr)
                return
            if op == 'ret':
                fr['rets'].append((st, self.val(st, I.ops[0]) if I.ops else None))
                return
            if op in ('unreachable', 'resume'):
                return
            st.env[I.id] = self.step(st, I)

    def step(self, st, I):
        op = I.op
        if op == 'load':
            return self.loadty(st, self.val(st, I.ops[0]), I.ty)
        if op == 'store':
            v = self.val(st, I.ops[0])
            p = self.val(st, I.ops[1])
            self.storety(st, p, v, I.x)
            return None
        if op == 'gep':
            return self.gep(st, I.x)
        if op == 'icmp':
            return self.icmp(I.x[0], self.val(st, I.ops[0]), self.val(st, I.ops[1]), I.x[1])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if I.ty.k != 'i':
                raise Unsupported('vector op')
            a = self.val(st, I.ops[0])
            b = self.val(st, I.ops[1])
            if op in ('shl', 'lshr', 'ashr') and not isc(b) and self.o.get('ub_shift') and not isinstance(b, Undef):
                self.oblig(st, 'shift-amount', 'safety', z3.ULT(b, z3.BitVecVal(I.ty.w, I.ty.w)))
            elif op in ('shl', 'lshr', 'ashr') and isc(b) and b >= I.ty.w and self.o.get('ub_shift'):
                self.oblig(st, 'shift-amount', 'safety', False)
            if op in ('udiv', 'sdiv', 'urem', 'srem') and not isinstance(b, (Undef, PtrInt)):
                if isc(b) and b == 0:
                    self.oblig(st, 'div-by-zero', 'safety', False)
                    return z3.BitVec(fresh('div0'), I.ty.w)
                if not isc(b):
                    self.oblig(st, 'div-by-zero', 'safety', b != 0)
            r = self.binop(op, a, b, I.ty.w)
            if isinstance(r, z3.ExprRef) and isinstance(r, z3.BitVecRef) and r.get_id() not in self.scaled:
                # cheap local simplification keeps terms small
                if r.num_args() and all(z3.is_bv_value(c) for c in r.children()):
                    r = simp(r)
            return r
        if op == 'zext':
            return self.zext(self.val(st, I.ops[0]), I.x.w, I.ty.w)
        if op == 'sext':
            return self.sext(self.val(st, I.ops[0]), I.x.w, I.ty.w)
        if op == 'trunc':
            return self.trunc(self.val(st, I.ops[0]), I.x.w, I.ty.w)
        if op == 'alloca':
            n = self.val(st, I.ops[0])
            if not isc(n):
                raise Unsupported('dynamic alloca')
            return self.alloc(st, 'stk.%d' % I.id, I.x * n)
        if op == 'select':
            c = self.val(st, I.ops[0])
            a = self.val(st, I.ops[1])
            b = self.val(st, I.ops[2])
            if isinstance(c, Undef):
                c = z3.Bool(fresh('undefb'))
            return self.ite(simp(c), a, b, I.ty)
        if op == 'ptrtoint':
            p = self.val(st, I.ops[0])
            if isinstance(p, Ptr) and p.reg is None and not p.syms:
                return p.off & MASK[64]
            if isinstance(p, Undef):
                return UNDEF
            return PtrInt(p)
        if op == 'inttoptr':
            v = self.val(st, I.ops[0])
            if isinstance(v, PtrInt):
                return v.p
            if isc(v):
                return Ptr(None, v)
            raise Unsupported('inttoptr')
        if op == 'bitcast' or op == 'freeze':
            v = self.val(st, I.ops[0])
            if op == 'freeze' and isinstance(v, Undef) and I.ty.k == 'i':
                return z3.BitVec(fresh('frz'), I.ty.w) if I.ty.w > 1 else z3.Bool(fresh('frz'))
            return v
        if op == 'extractvalue':
            v = self.val(st, I.ops[0])
            for i in I.x:
                if isinstance(v, Undef):
                    return UNDEF
                v = v[i]
            return v
        if op == 'insertvalue':
            a = self.val(st, I.ops[0])
            v = self.val(st, I.ops[1])

            def ins(a, idx, t):
                if not idx:
                    return v
                if isinstance(a, Undef):
                    a = tuple(UNDEF for _ in range(len(t.els) if t.k == 's' else t.n))
                l = list(a)
                l[idx[0]] = ins(l[idx[0]], idx[1:], t.els[idx[0]] if t.k == 's' else t.el)
                return tuple(l)
            return ins(a, I.x, I.ty)
        if op == 'fcmp':
            return z3.Bool(fresh('fcmp'))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            return FPVal()
        if op in ('fptoui', 'fptosi'):
            return z3.BitVec(fresh('fp'), I.ty.w)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = self.val(st, I.ops[0])
            old = self.loadty(st, p, I.ty)
            v = self.val(st, I.ops[1])
            k = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}[I.x]
            self.storety(st, p, v if k is None else self.binop(k, old, v, I.ty.w), I.ty)
            return old
        if op == 'landingpad':
            return UNDEF
        raise Unsupported('instruction ' + op)

    def loadty(self, st, p, ty):
        if ty.k == 's':
            return tuple(self.loadty(st, ptr_add(p, o), e) for o, e in zip(ty.offs, ty.els))
        if ty.k == 'a':
            return tuple(self.loadty(st, ptr_add(p, i * ty.el.size), ty.el) for i in range(ty.n))
        if ty.k == 'vec':
            return tuple(self.loadty(st, ptr_add(p, i * ty.el.size), ty.el) for i in range(ty.n))
        n = ty.size
        if ty.k == 'i' and ty.w > 64 and ty.w % 64 == 0 or (ty.k == 'i' and ty.w not in (1, 8, 16, 32, 64)):
            n = (ty.w + 7) // 8
        return self.load(st, p, n, ty)

    def storety(self, st, p, v, ty):
        if ty.k == 's':
            for i, (o, e) in enumerate(zip(ty.offs, ty.els)):
                self.storety(st, ptr_add(p, o), UNDEF if isinstance(v, Undef) else v[i], e)
            return
        if ty.k in ('a', 'vec'):
            for i in range(ty.n):
                self.storety(st, ptr_add(p, i * ty.el.size), UNDEF if isinstance(v, Undef) else v[i], ty.el)
            return
        n = ty.size
        if ty.k == 'i' and ty.w not in (1, 8, 16, 32, 64):
            n = (ty.w + 7) // 8
            if ty.w % 8 and not isinstance(v, (Undef, PtrInt)):
                v = self.zext(v, ty.w, 8 * n)
        if ty.k == 'i' and ty.w == 1:
            v = bv(v, 8) if not isinstance(v, bool) else int(v)
            ty2 = irload.Ty()
            ty2.k = 'i'
            ty2.w = 8
            self.store(st, p, 1, v, ty2)
            return
        if isinstance(v, (bool, z3.BoolRef)) and ty.k == 'i':
            v = bv(v, ty.w)
        self.store(st, p, n, v, ty)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, I, cur):
        x = I.x
        if x[0] == 'fn':
            fn = x[1]
        elif x[0] == 'asm':
            return [(st, UNDEF)]
        else:
            f = self.val(st, x)
            if isinstance(f, FnPtr):
                fn = f.fn
            elif isinstance(f, PtrIte) and all(isinstance(q, FnPtr) for _, q in f.alts):
                args = [self.val(st, o) if o[0] != 'md' else None for o in I.ops]
                out = []
                for c, q in f.alts:
                    if c is False or not self.feasible(st, c):
                        continue
                    s2 = st.copy()
                    if c is not True:
                        s2.pc = s2.pc + (c,)
                    out += self.invoke(s2, q.fn, args, I)
                return out
            else:
                raise Unsupported('indirect call through %r' % (f,))
        if fn.name.startswith('llvm.dbg') or fn.name.startswith('llvm.lifetime') or fn.name.startswith('llvm.experimental.noalias'):
            return [(st, None)]
        args = [self.val(st, o) if o[0] != 'md' else None for o in I.ops]
        return self.invoke(st, fn, args, I)

    def invoke(self, st, fn, args, I):
        from models import model
        name = fn.name
        dem = self.m.dem(fn)
        for (pat, stub, rec) in self.stubs:
            if pat in dem and fn is not stub and stub not in self.callstack:
                if rec and fn not in self.callstack:
                    continue
                self.contracts_used.add(pat)
                return self.call_fn(stub, args, st)
        r = model(self, st, fn, name, dem, args, I)
        if r is not None:
            return r
        return self.call_fn(fn, args, st)
