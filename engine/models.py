"""Verifier intrinsics (__vf_*), LLVM intrinsics and the few trusted external functions."""
import z3
import irload
import symex
from symex import (Ptr, PtrIte, PtrInt, Undef, UNDEF, FnPtr, FPVal, NULL, Region, Blob, Unsupported, MASK, isc, bv, bl, simp, fresh,
                   band, bor, bnot, split_idx, ptr_add)


def cstr(e, st, p):
    if not isinstance(p, Ptr) or p.reg is None:
        raise Unsupported('string argument')
    b = st.mem.get(p.reg.id)
    if b is None:
        for gv, rr in e.gvregs.items():
            if rr is p.reg:
                e.gvregion(st, gv)
        b = st.mem[p.reg.id]
    s = ''
    o = p.off
    while True:
        c = b.cells.get(o)
        if c is None or not isc(c[1]) or c[1] == 0:
            return s
        s += chr(c[1])
        o += 1


def tyi(w):
    t = irload.Ty()
    t.k = 'i'
    t.w = w
    t.size = (w + 7) // 8
    return t


def ctpop(v, w):
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r


def ctpop_swar(v, w):
    if w > 64 or w < 8 or w & (w - 1):
        return ctpop(v, w)
    M = MASK[w]

    def c(x):
        return z3.BitVecVal(x & M, w)
    v = v - (z3.LShR(v, 1) & c(0x5555555555555555))
    v = (v & c(0x3333333333333333)) + (z3.LShR(v, 2) & c(0x3333333333333333))
    v = (v + z3.LShR(v, 4)) & c(0x0f0f0f0f0f0f0f0f)
    s = 8
    while s < w:
        v = v + z3.LShR(v, s)
        s *= 2
    return v & c(0x7f)


PATH_END = ('_ZSt9terminatev', 'abort', 'exit', '_Exit', '__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast', '__cxa_pure_virtual')


def model(e, st, fn, name, dem, args, I):
    R = lambda v=None: [(st, v)]
    if name.startswith('__vf_'):
        return vf(e, st, name, args, I)
    if name.startswith('llvm.'):
        return intrinsic(e, st, name, args, I)
    if name == '__assert_fail':
        e.oblig(st, 'assert: ' + cstr(e, st, args[0]), 'assert', False)
        return []
    if '__glibcxx_assert_fail' in name or name == '_ZSt21__glibcxx_assert_failPKciS0_S0_':
        e.oblig(st, 'library precondition: ' + (cstr(e, st, args[3]) if isinstance(args[3], Ptr) and args[3].reg else '?'), 'safety', False)
        return []
    if name in PATH_END or name.startswith('_ZSt20__throw') or '__throw_' in name:
        e.pruned_throw += 1
        if e.o.get('nothrow') and not e.quiet:
            e.oblig(st, 'no exception: ' + dem[:60], 'assert', False)
        return []
    if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
        n = args[0]
        n = n if isc(n) else n
        if isc(n):
            return R(e.alloc(st, 'heap', n))
        s = e.scaled.get(n.get_id())
        if s is None:
            n2 = simp(n)
            if isc(n2):
                return R(e.alloc(st, 'heap', n2))
            s = e.scaled.get(n2.get_id())
        if s is None and not isc(n):
            s = (n, 1, 0)
        r = Region('heap', 'array', stride=s[1] if s else 1, cap=None)
        r.lenterm = s[0]
        if s[2] == 0:
            r.cap = s[0]
        st.mem[r.id] = {}
        e.trusted.add('operator new(symbolic size)')
        return R(Ptr(r))
    if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm', '_ZdlPvmSt11align_val_t'):
        return R()
    if fn.decl:
        if name in ('memcmp', 'bcmp'):
            n = args[2]
            if isc(n) and n <= 4096:
                acc = True
                for i in range(n):
                    t = tyi(8)
                    acc = band(acc, e.icmp('eq', e.load(st, ptr_add(args[0], i), 1, t), e.load(st, ptr_add(args[1], i), 1, t), t))
                acc = simp(acc)
                if acc is True:
                    return R(0)
                f = z3.BitVec(fresh('memcmp'), 32)
                if acc is False:
                    st.pc = st.pc + (f != 0,)
                    return R(f)
                return R(z3.If(acc, z3.BitVecVal(0, 32), f | 1))
            raise Unsupported(name)
        if name == 'strlen':
            return R(len(cstr(e, st, args[0])))
        if name in ('memcpy', 'memmove'):
            e.memcpy(st, args[0], args[1], args[2], name)
            return R(args[0])
        if name in ('__cxa_atexit', 'atexit', '__cxa_guard_release', '__cxa_guard_abort'):
            return R(0 if name != '__cxa_guard_release' else None)
        if name == '__cxa_guard_acquire':
            return R(1)
        if name in ('__cxa_allocate_exception',):
            n = args[0]
            return R(e.alloc(st, 'exc', n if isc(n) else 64))
        if name == '__cxa_free_exception' or name == '__cxa_begin_catch' or name == '__cxa_end_catch':
            return R(NULL)
        if '_Prime_rehash_policy' in name:
            e.trusted.add('std::unordered_* rehash policy (bucket counts only affect speed): never rehashes')
            if '_M_need_rehash' in name:
                return R((False, 0))
            if '_M_next_bkt' in name:
                return R(13)
        if name == '__gthread_active_p' or name == '_ZL18__gthread_active_pv':
            return R(0)
        if name.startswith('_ZNSt13runtime_error') or name.startswith('_ZNSt12length_error') or name.startswith('_ZNSt11logic_error'):
            return R()
        if name.startswith('_ZNSo') or name.startswith('_ZStls') or name.startswith('_ZNSolsE'):
            e.trusted.add('std::ostream output (no effect on program state)')
            return R(args[0] if args else None)
        raise Unsupported('external function ' + dem)
    if '__gthread_active_p' in name:
        return R(0)
    return None


def vf(e, st, name, args, I=None):
    R = lambda v=None: [(st, v)]
    if name == '__vf_in':
        n = cstr(e, st, args[0])
        bits = args[1]
        v = z3.BitVec(fresh(n), bits)
        if not e.quiet:
            e.inputs.append((n, v, bits))
        return R(v if bits == 64 else z3.ZeroExt(64 - bits, v))
    if name == '__vf_assume':
        c = args[0]
        if isinstance(c, Undef):
            raise Unsupported('assume undef')
        c = c if isinstance(c, (bool, z3.BoolRef)) else (c != 0)
        s = e.assume(st, c)
        if s is None:
            return []
        if not isinstance(simp(c), bool) and e.check(list(st.pc)) == z3.unsat:
            return []
        return R()
    if name == '__vf_assert':
        n = cstr(e, st, args[1])
        c = args[0]
        if isinstance(c, Undef):
            c = False
        c = c if isinstance(c, (bool, z3.BoolRef)) else (c != 0)
        e.oblig(st, n, 'post', c)
        s = e.assume(st, c)
        return R() if s is not None else []
    if name == '__vf_cover':
        if not e.quiet:
            e.covers.append((cstr(e, st, args[0]), st.pc, st.facts))
        return R()
    if name == '__vf_option':
        n = cstr(e, st, args[0])
        v = args[1]
        if n == 'loops_inv':
            e.o['loops'] = 'inv' if v else 'unroll'
        elif n == 'merge':
            e.o['merge'] = bool(v)
        else:
            e.o[n] = v
        return R()
    if name == '__vf_forall':
        kind, nm, lo, hi, f, ctx = args
        iv = z3.BitVec(fresh('q'), 64)
        LO, HI = bv(lo, 64), bv(hi, 64)
        s2 = st.copy()
        s2.pc = s2.pc + (z3.ULE(LO, iv), z3.ULT(iv, HI))
        s2.model = None
        if kind == 0:
            body = e.eval_pred(s2, f, [ctx, iv])
            body = bl(simp(body))
            if z3.is_true(body):
                return R()
            st.facts = st.facts + ((True, LO, HI, iv, body),)
            # memory cells created lazily while evaluating the predicate must be shared
            share(e, st, s2)
            return R()
        n = cstr(e, st, nm)
        body = e.eval_pred(s2, f, [ctx, iv])
        e.oblig(s2, n, 'post', body)
        return R()
    if name == '__vf_symarray':
        n = cstr(e, st, args[0])
        stride = args[1]
        ln = args[2]
        r = Region(n, 'array', stride=stride, cap=None if (isc(ln) and ln == MASK[64]) else ln)
        d = {}
        for wo in range(0, stride, r.word):
            d[wo] = z3.Array(fresh('%s.%d' % (n, wo)), z3.BitVecSort(64), z3.BitVecSort(8 * r.word))
            e.keep.append(d[wo])
        st.mem[r.id] = d
        return R(Ptr(r))
    if name == '__vf_alloc':
        return R(e.alloc(st, 'obj', args[0]))
    if name == '__vf_inf':
        p = args[0]
        return R(Ptr(p.reg, p.off, p.syms, True))
    if name == '__vf_loop_inv':
        if not e.quiet:
            e.loop_templates.append((args[0], args[1], args[2]))
            e.loop_over[len(e.loop_templates) - 1] = e.loop_region
        return R()
    if name == '__vf_loop_over':
        e.loop_region = cstr(e, st, args[0]) or None
        return R()
    if name == '__vf_contract':
        e.stubs.append((cstr(e, st, args[0]), args[1].fn, args[2] != 0))
        return R()
    if name == '__vf_call':
        pat = cstr(e, st, args[0])
        fs = [f for f in e.m.fns.values() if not f.decl and pat in e.m.dem(f)]
        if len(fs) > 1: # nested functions mention the name of the enclosing one
            fs = sorted(fs, key=lambda f: len(e.m.dem(f)))
            fs = fs[:1] if len(e.m.dem(fs[0])) < len(e.m.dem(fs[1])) else fs
        if len(fs) != 1:
            raise Unsupported('%d functions match %s: %s' % (len(fs), pat, [e.m.dem(f) for f in fs][:4]))
        out = []
        for (s2, v) in e.invoke(st, fs[0], list(args[1:]), I):
            out.append((s2, v))
        return out
    if name == '__vf_havoc_field':
        p, off = args
        r = p.reg
        wo = off - off % r.word
        st.mem[r.id] = dict(st.mem[r.id])
        st.mem[r.id][wo] = z3.Array(fresh('%s.%d' % (r.name, wo)), z3.BitVecSort(64), z3.BitVecSort(8 * r.word))
        e.keep.append(st.mem[r.id][wo])
        e.wlog(r, ('A', wo))
        return R()
    if name == '__vf_havoc_array':
        p = args[0]
        r = p.reg
        d = {}
        for wo in range(0, r.stride, r.word):
            d[wo] = z3.Array(fresh('%s.%d' % (r.name, wo)), z3.BitVecSort(64), z3.BitVecSort(8 * r.word))
            e.keep.append(d[wo])
            e.wlog(r, ('A', wo))
        st.mem[r.id] = d
        return R()
    if name == '__vf_assign':
        d, s = args
        st.mem[d.reg.id] = dict(st.mem[s.reg.id])
        for wo in range(0, d.reg.stride, d.reg.word):
            e.aarr(st, s.reg, wo)
            e.wlog(d.reg, ('A', wo))
        st.mem[d.reg.id] = dict(st.mem[s.reg.id])
        return R()
    raise Unsupported(name)


def share(e, st, s2):
    pass


def intrinsic(e, st, name, args, I):
    R = lambda v=None: [(st, v)]
    n = name.split('.')
    k = n[1]
    if k in ('memcpy', 'memmove'):
        e.memcpy(st, args[0], args[1], args[2], k)
        return R()
    if k == 'memset':
        d, v, ln = args[0], args[1], args[2]
        ln = ln if isc(ln) else simp(ln)
        if not isc(ln):
            if isinstance(d, Ptr) and d.reg.kind == 'array' and isc(v):
                i, o, rest = split_idx(d)
                if isc(i) and i == 0 and o == 0 and not rest and d.reg.lenterm is not None:
                    nd = {}
                    for wo in range(0, d.reg.stride, d.reg.word):
                        x = 0
                        for _ in range(d.reg.word):
                            x = x << 8 | v
                        nd[wo] = z3.K(z3.BitVecSort(64), z3.BitVecVal(x, 8 * d.reg.word))
                        e.wlog(d.reg, ('A', wo))
                    st.mem[d.reg.id] = nd
                    return R()
            raise Unsupported('memset symbolic length')
        if ln > 100000:
            raise Unsupported('memset too long')
        i = 0
        W = 8
        if isinstance(d, Ptr) and d.reg is not None and d.reg.kind == 'array':
            W = d.reg.word
        while i < ln:
            w = next(q for q in (8, 4, 2, 1) if q <= ln - i and q <= W)
            if isc(v):
                x = 0
                for _ in range(w):
                    x = x << 8 | v
            else:
                x = z3.Concat(*[v] * w) if w > 1 else v
            e.store(st, ptr_add(d, i), w, x, tyi(8 * w), 'memset')
            i += w
        return R()
    if k in ('assume', 'lifetime', 'dbg', 'experimental', 'prefetch', 'stackrestore', 'invariant', 'donothing', 'va_start', 'va_end'):
        return R()
    if k == 'stacksave':
        return R(NULL)
    if k == 'trap':
        return []
    if k == 'expect':
        return R(args[0])
    if k == 'launder' or k == 'strip':
        return R(args[0])
    if k == 'is':
        return R(False)
    if k == 'objectsize':
        return R(MASK[64])
    if k == 'eh':
        return R(0)
    w = I.ty.w if I.ty.k == 'i' else None
    if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'abs'):
        v = args[0]
        if isc(v):
            if k == 'ctpop':
                return R(bin(v).count('1'))
            if k == 'ctlz':
                return R(w - v.bit_length())
            if k == 'cttz':
                return R(w if v == 0 else (v & -v).bit_length() - 1)
            if k == 'bswap':
                return R(int.from_bytes(v.to_bytes(w // 8, 'little'), 'big'))
            if k == 'abs':
                return R((-v) & MASK[w] if v >> (w - 1) else v)
        v = bv(v, w)
        if k == 'ctpop':
            if e.o.get('ctpop_uf'):
                return R(z3.Function('ctpop%d' % w, z3.BitVecSort(w), z3.BitVecSort(w))(v))
            return R(ctpop_swar(v, w))
        if k == 'ctlz':
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return R(r)
        if k == 'cttz':
            r = z3.BitVecVal(w, w)
            for i in range(w - 1, -1, -1):
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
            return R(r)
        if k == 'bswap':
            return R(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
        if k == 'abs':
            return R(z3.If(v < 0, -v, v))
    if k in ('umin', 'umax', 'smin', 'smax'):
        a, b = args[0], args[1]
        c = e.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], a, b, tyi(w))
        return R(e.ite(c, a, b, tyi(w)))
    if k in ('fshl', 'fshr'):
        a, b, c = args
        c = e.binop('urem', c, w, w)
        if k == 'fshl':
            if isc(c) and c == 0:
                return R(a)
            A = z3.Concat(bv(a, w), bv(b, w))
            return R(simp(z3.Extract(2 * w - 1, w, A << z3.ZeroExt(w, bv(c, w)))))
        A = z3.Concat(bv(a, w), bv(b, w))
        return R(simp(z3.Extract(w - 1, 0, z3.LShR(A, z3.ZeroExt(w, bv(c, w))))))
    if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'overflow' in name:
        w = I.ty.els[0].w
        a, b = args
        op = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[k[1:]]
        r = e.binop(op, a, b, w)
        if isc(a) and isc(b):
            full = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            if k[0] == 'u':
                return R((r, full != r))
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            sr = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
            rr = r - (1 << w) if r >> (w - 1) else r
            return R((r, rr != sr))
        A, B = bv(a, w), bv(b, w)
        if k[0] == 'u':
            X, Y = z3.ZeroExt(w, A), z3.ZeroExt(w, B)
        else:
            X, Y = z3.SignExt(w, A), z3.SignExt(w, B)
        F = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
        E = z3.ZeroExt(w, bv(r, w)) if k[0] == 'u' else z3.SignExt(w, bv(r, w))
        return R((r, simp(F != E)))
    if k in ('usub', 'uadd') and n[2] == 'sat':
        a, b = args
        if k == 'usub':
            return R(e.ite(e.icmp('ult', a, b, tyi(w)), 0, e.binop('sub', a, b, w), tyi(w)))
    if k in ('ceil', 'floor', 'pow', 'exp2', 'fmuladd', 'fabs', 'log2', 'sqrt'):
        return R(FPVal())
    raise Unsupported('intrinsic ' + name)
