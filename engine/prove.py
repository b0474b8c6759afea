"""Compile a driver to LLVM IR and discharge the obligations of its proof functions."""
import os, sys, time, json, subprocess, hashlib, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import irload
import symex

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')

INCS = ['include', 'include/database', 'include/operations', 'include/utils', 'include/techmap-lib', 'cli', 'libs', 'libs/kitty/include', 'libs/lorina', 'libs/fmt',
        'libs/percy', 'libs/bill', 'libs/bill/bill/include', 'libs/abc', 'libs/abcsat', 'libs/abcesop', 'libs/alice', 'libs/parallel_hashmap', 'libs/json', 'libs/cli11', 'libs/rang', 'libs/any']


def incflags():
    out = ['-I', os.path.join(ROOT, 'engine'), '-I', os.path.join(ROOT, 'drivers')]
    for i in INCS:
        p = os.path.join(REPO, i)
        if os.path.isdir(p):
            out += ['-isystem' if i.startswith('libs') else '-I', p]
    return out


CXX = ['-std=gnu++17', '-DFMT_HEADER_ONLY', '-DABC_NAMESPACE=pabc', '-DABC_NO_USE_READLINE', '-DDISABLE_NAUTY', '-DLIN64', '-w', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS']


def run(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def compile_ir(src, out, defs=()):
    raw = out + '.raw.ll'
    cmd = ['clang++-18'] + CXX + ['-DVF_SYMBOLIC', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-threadsafe-statics', '-S', '-emit-llvm'] + list(defs) + incflags() + [src, '-o', raw]
    rc, o = run(cmd)
    if rc:
        return False, o
    rc, o = run(['opt-18', '-S', '-passes=function(sroa,early-cse,instsimplify,simplifycfg,loop-simplify)', raw, '-o', out])
    os.unlink(raw)
    return rc == 0, o


def compile_native(src, out, defs=(), san=True):
    """native build of the contract text; the first lines of a driver may say  // vf-native: g++ abcsat nosan"""
    head = ''.join(open(src).readlines()[:4])
    opts = ''
    for l in head.split('\n'):
        if 'vf-native:' in l:
            opts = l.split('vf-native:')[1]
    gnu = 'g++' in opts
    cmd = ['g++' if gnu else 'clang++-18'] + CXX + ['-O1', '-g1']
    if san and 'nosan' not in opts:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all']
    if gnu:
        cmd += ['-fopenmp', '-fpermissive']
    libs = ['-lpthread']
    if 'abcsat' in opts:
        a = out + '.abcsat'
        ok, o = build_abcsat(a)
        if not ok:
            return False, o
        libs = [a + '/libabcsat.a'] + libs
    cmd += list(defs) + incflags() + [src, '-o', out] + libs
    rc, o = run(cmd)
    return rc == 0, o


def build_abcsat(d):
    """the SAT solver library of /repo, built as the repository builds it"""
    import glob
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, 'libs/abcsat/*.cpp')))

    def one(s):
        o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
        rc, t = run(['g++', '-std=c++17', '-O2', '-w', '-fpermissive', '-DABC_NAMESPACE=pabc', '-DABC_NO_USE_READLINE', '-DLIN64', '-I', os.path.join(REPO, 'libs/abcsat'), '-I', os.path.join(REPO, 'libs'), '-c', s, '-o', o])
        return rc, t, o
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, srcs))
    for rc, t, o in rs:
        if rc:
            return False, t
    rc, t = run(['ar', 'rcs', os.path.join(d, 'libabcsat.a')] + [r[2] for r in rs])
    return rc == 0, t


def smt2(conds):
    s = z3.Solver()
    for c in conds:
        s.add(c)
    return s.to_smt2()


SOLVERS = {'cvc5': ['cvc5', '--lang=smt2'], 'z3-new': ['z3-new', '-smt2']}


def one_external(name, txt, tmo):
    """one back end on the SMT-LIB text; 'unsat', 'sat', or anything else"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        if name == 'cvc5':
            f.write('(set-logic ALL)\n')
        f.write(txt)
    lim = '--tlimit=%d' % (tmo * 1000) if name == 'cvc5' else '-T:%d' % max(1, int(tmo))
    try:
        p = subprocess.run(SOLVERS[name] + [lim, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo + 10)
        return p.stdout.decode(errors='replace').strip().split('\n')[0]
    except Exception as ex:
        return str(ex)
    finally:
        os.unlink(f.name)


def external(conds, tmo):
    """fallback back ends on the exported SMT-LIB text"""
    txt = smt2(conds)
    for name in SOLVERS:
        if one_external(name, txt, tmo) == 'unsat':
            return 'unsat', name
    return 'unknown', None


def discharge(e, o, tmo=20, ext=10):
    """-> (status, backend, seconds, model)"""
    t0 = time.time()
    if o.goal is True:
        return 'proved', 'simplifier', 0.0, None
    goal = symex.bl(o.goal)
    conds = list(o.pc)
    if o.facts:
        # a proof from fewer instances of the assumed facts is a proof
        last = -1
        for rounds, t in ((1, 3), (2, 5)):
            ex = e.instantiate(o.pc, o.facts, goal, rounds=rounds)
            if len(ex) == last:
                break
            last = len(ex)
            s = z3.Solver()
            s.set('timeout', int(min(tmo, t) * 1000))
            s.add(*(conds + ex + [z3.simplify(z3.Not(goal))]))
            t1 = time.time()
            r = s.check()
            if r == z3.unsat:
                return 'proved', 'z3', time.time() - t0, None
            if r == z3.unknown and ext and one_external('cvc5', smt2(conds + ex + [z3.simplify(z3.Not(goal))]), min(tmo, 2 * t)) == 'unsat':
                return 'proved', 'cvc5', time.time() - t0, None
    extra = e.instantiate(o.pc, o.facts, goal)
    allc = conds + extra + [z3.simplify(z3.Not(goal))]
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    s.add(*allc)
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', time.time() - t0, None
    if r == z3.sat:
        return 'refuted', 'z3', time.time() - t0, s.model()
    # bit-vector tactic
    try:
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver() if not extra else z3.SolverFor('QF_ABV')
        s.set('timeout', int(tmo * 1000))
        s.add(*allc)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3-sat', time.time() - t0, None
        if r == z3.sat:
            return 'refuted', 'z3-sat', time.time() - t0, s.model()
    except z3.Z3Exception:
        pass
    if ext:
        r, b = external(allc, ext)
        if r == 'unsat':
            return 'proved', b, time.time() - t0, None
    return 'unknown', None, time.time() - t0, None


def prove_one(mod, name, budget=300, verbose=False, tmo=20):
    """run one proof function; returns a result dict"""
    t0 = time.time()
    res = dict(proof=name, status='proved', obligations=0, discharged=0, by={}, failed=[], undecided=[], error=None, solver_s=0.0,
               safety=0, covers=0, covers_ok=0, functions=[], contracts=[], trusted=[], inexact=[], loops=[], replay=None)
    fn = mod.fns.get('vfp_' + name)
    if fn is None:
        res['status'] = 'undecided'
        res['error'] = 'proof function not found'
        return res
    e = symex.Engine(mod, dict(deadline=t0 + budget, verbose=verbose))
    e.cvc5 = lambda conds, t: one_external('cvc5', smt2(list(conds)), t) == 'unsat'
    try:
        st = e.newstate()
        for b, _ in [(None, None)]:
            pass
        e.call_fn(fn, [], st)
    except symex.Unsupported as ex:
        res['status'] = 'undecided'
        loc = e.curloc
        res['error'] = 'unsupported: %s at %s:%s in %s' % (ex, (loc or ('?', 0, ''))[0], (loc or ('?', 0, ''))[1], irload.demangle((loc or ('?', 0, ''))[2])[:120])
    except z3.Z3Exception as ex:
        res['status'] = 'undecided'
        res['error'] = 'z3: %s' % ex
        if verbose:
            traceback.print_exc()
    except Exception as ex:
        res['status'] = 'undecided'
        res['error'] = 'engine: %s: %s' % (type(ex).__name__, ex)
        if verbose:
            traceback.print_exc()
    res['gen_s'] = round(time.time() - t0, 2)
    res['feas_queries'] = e.nq
    res['steps'] = e.steps
    if e.probe_unknown:
        res['probe_unknown'] = len(e.probe_unknown)
    hasfail = []
    seen = set()
    for o in e.obls:
        key = (o.name, o.kind, tuple(c.get_id() for c in o.pc), o.goal if isinstance(o.goal, bool) else o.goal.get_id())
        if key in seen:
            continue
        seen.add(key)
        res['obligations'] += 1
        if o.kind == 'safety':
            res['safety'] += 1
        if time.time() - t0 > budget:
            stt, be, dt, m = 'unknown', None, 0, None
        else:
            left = budget - (time.time() - t0)
            stt, be, dt, m = discharge(e, o, tmo=min(tmo, max(1, left)), ext=min(20, max(0, left - tmo)))
        if stt == 'refuted' and (e.inv_unknown or e.probe_unknown):
            stt = 'unknown'     # a loop invariant candidate was given up without a decision: the state is only an over-approximation
        res['solver_s'] += dt
        where = '%s:%s' % ((o.loc[0] or '?').replace(REPO + '/', ''), o.loc[1]) if o.loc else '?'
        if verbose and (dt > 1 or stt != 'proved'):
            print('   ', stt, o.kind, o.name, where, '%.2fs' % dt, file=sys.stderr)
        if stt == 'proved':
            res['discharged'] += 1
            res['by'][be] = res['by'].get(be, 0) + 1
        else:
            item = dict(name=o.name, kind=o.kind, where=where, status=stt)
            if m is not None:
                item['inputs'] = [(n, m.eval(v, model_completion=True).as_long()) for n, v, w in e.inputs]
            (res['failed'] if stt == 'refuted' else res['undecided']).append(item)
            if len(res['failed']) + len(res['undecided']) > 6:
                res['truncated'] = True
                break
    # vacuity guard: every declared cover must be reachable
    bad = {}
    for (n, pc, facts) in e.covers:
        bad.setdefault(n, False)
        if bad[n] is True:
            continue
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*pc)
        s.add(*e.instantiate(pc, facts, z3.BoolVal(True)))
        if s.check() != z3.unsat:
            bad[n] = True
    res['covers'] = len(bad)
    res['covers_ok'] = sum(1 for v in bad.values() if v)
    res['vacuous'] = [n for n, v in bad.items() if not v]
    if res['failed']:
        res['status'] = 'refuted' if res['error'] is None else 'refuted'
    elif res['undecided']:
        res['status'] = 'undecided'
    if res['status'] == 'proved' and (res['obligations'] == 0 or res['vacuous'] or not bad):
        res['status'] = 'undecided'
        res['error'] = 'vacuous proof: obligations=%d unreachable covers=%s' % (res['obligations'], res['vacuous'])
    pre = os.path.join(REPO, '')
    res['functions'] = sorted({irload.demangle(n) for n in e.executed if 'iFPGA' in irload.demangle(n) or 'kitty' in irload.demangle(n) or 'lorina' in irload.demangle(n)})[:200]
    res['contracts'] = sorted(e.contracts_used)
    res['trusted'] = sorted(e.trusted)
    res['inexact'] = sorted(e.inexact)
    res['loops'] = [dict(fn=a, at=b, inv=[c[:120] for c in cs][:20]) for a, b, cs in e.loops_inv]
    res['unrolled_iterations'] = e.unrolled
    res['pruned_throw_paths'] = e.pruned_throw
    res['wall_s'] = round(time.time() - t0, 2)
    res['solver_s'] = round(res['solver_s'], 2)
    return res


if __name__ == '__main__':
    src = sys.argv[1]
    ll = '/tmp/vf_%s.ll' % os.path.basename(src).replace('.cpp', '')
    t = time.time()
    if '--nc' not in sys.argv:
        ok, o = compile_ir(src, ll)
        if not ok:
            print(o[:5000])
            sys.exit(1)
    print('compiled %.1fs' % (time.time() - t))
    mod = irload.Module(ll)
    names = [a for a in sys.argv[2:] if not a.startswith('-')] or [n[4:] for n in mod.fns if n.startswith('vfp_')]
    for n in names:
        r = prove_one(mod, n, budget=float(os.environ.get("VF_BUDGET", "300")), verbose='-q' not in sys.argv)
        print(n, r['status'], 'obl', r['obligations'], 'disch', r['discharged'], 'gen', r['gen_s'], 'wall', r['wall_s'], 'covers %d/%d' % (r['covers_ok'], r['covers']), r['by'], r['error'] or '')
        for f in r['failed'] + r['undecided']:
            print('   FAIL', f)
        if '-v' in sys.argv:
            print(json.dumps(r, indent=1))
