#!/usr/bin/env python3
"""Run the check of one property:  python3-vt engine/check.py C05
Deciding step: every proof obligation generated from /repo's current sources is discharged by a solver.
Bounded stand-ins (native contract execution) are run in addition and always labelled bounded."""
import os, sys, time, json, subprocess, tempfile, shutil, multiprocessing, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prove
import irload
from props import PROPS

ROOT = prove.ROOT
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
WALL = float(os.environ.get('VF_WALL', '760' if TIER == 'quick' else '3000'))


def left():
    return WALL - (time.time() - T0)


_mods = {}


def proof_task(a):
    ll, name, budget = a
    try:
        if ll not in _mods:
            _mods[ll] = irload.Module(ll)
        return prove.prove_one(_mods[ll], name, budget=budget)
    except Exception as ex:
        return dict(proof=name, status='undecided', obligations=0, discharged=0, by={}, failed=[], undecided=[], error='engine: %r' % ex, solver_s=0.0, wall_s=0.0,
                    functions=[], contracts=[], trusted=[], inexact=[], loops=[], covers=0, covers_ok=0, safety=0)


def native_task(a):
    exe, name, seed, ms, out, extra = a
    cmd = [exe, '--run', name, '--seed', str(seed), '--ms', str(ms), '--out', out] + extra
    return run_native(cmd, name, ms / 1000.0 + 120)


def run_native(cmd, name, tmo):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=0:handle_segv=0:abort_on_error=1:detect_odr_violation=0', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=0', OMP_NUM_THREADS='2')
    wd = tempfile.mkdtemp(prefix='vfn_', dir=WORK)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, cwd=wd, env=env)
        o = p.stdout.decode(errors='replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        o = (ex.stdout or b'').decode(errors='replace')
        rc = 'timeout'
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    m = re.search(r'^(OK|FAIL) (\S+)(.*)$', o, re.M)
    r = dict(name=name, rc=rc, verdict=None, runs=0, skips=0, checks=0, what='', tail=o[-1500:])
    for mm in re.finditer(r'^(OK|FAIL) (\S+)(.*)$', o, re.M):
        r['verdict'] = mm.group(1)
        rest = mm.group(3)
        k = re.search(r'runs=(\d+)', rest)
        r['runs'] = int(k.group(1)) if k else 0
        k = re.search(r'skips=(\d+)', rest)
        r['skips'] = int(k.group(1)) if k else 0
        k = re.search(r'checks=(\d+)', rest)
        r['checks'] = int(k.group(1)) if k else 0
        if mm.group(1) == 'FAIL':
            r['what'] = re.sub(r' runs=\d+$', '', rest).strip()
            break
    if r['verdict'] is None and rc not in (0, 'timeout'):
        r['verdict'] = 'FAIL'
        mm = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*|Assertion .* failed|terminate called.*)', o)
        r['what'] = 'crash: ' + (mm.group(1)[:160] if mm else 'rc=%s' % rc)
    elif r['verdict'] == 'FAIL' and r['what'].startswith('crash'):
        mm = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*|Assertion .* failed|terminate called.*)', o)
        if mm:
            r['what'] += ' (' + mm.group(1)[:160] + ')'
    return r


def main():
    global WORK
    pid = sys.argv[1]
    P = PROPS[pid]
    WORK = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return go(pid, P)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def go(pid, P):
    evd = os.path.join(ROOT, 'evidence')
    rpd = os.path.join(evd, 'replays')
    os.makedirs(rpd, exist_ok=True)
    for f in os.listdir(rpd):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rpd, f))
    thorough = TIER == 'thorough'
    units = P['units']
    pool = multiprocessing.Pool(8, maxtasksperchild=4)
    comp = {}
    for u in units:
        src = os.path.join(ROOT, 'drivers', u['driver'])
        base = os.path.join(WORK, u['driver'].replace('.cpp', ''))
        if u.get('proofs'):
            comp[(u['driver'], 'ir')] = pool.apply_async(prove.compile_ir, (src, base + '.ll'))
        comp[(u['driver'], 'nat')] = pool.apply_async(prove.compile_native, (src, base + '.exe'))
    compiled = {k: v.get() for k, v in comp.items()}
    notes = []
    jobs = []
    njobs = []
    for u in units:
        base = os.path.join(WORK, u['driver'].replace('.cpp', ''))
        ok, o = compiled.get((u['driver'], 'ir'), (False, ''))
        okn, on = compiled[(u['driver'], 'nat')]
        if u.get('proofs') and not ok:
            notes.append('driver %s: IR compilation failed: %s' % (u['driver'], first_err(o)))
        if not okn:
            notes.append('driver %s: native compilation failed: %s' % (u['driver'], first_err(on)))
        if okn:
            have = native_names(base + '.exe')
            for n in u.get('proofs', []):
                nm, _ = nb(n)
                if nm not in have:
                    continue
                ms = (u.get('ms', 2000)) * (8 if thorough else 1)
                njobs.append((u, nm, 'contract', pool.apply_async(native_task, ((base + '.exe', nm, SEED, ms, os.path.join(rpd, '%s-%s.txt' % (pid, nm)), []),))))
            for n in u.get('natives', []):
                nm, ms = nb(n)
                ms = (ms or 15000) * (6 if thorough else 1)
                njobs.append((u, nm, 'bounded', pool.apply_async(native_task, ((base + '.exe', nm, SEED, ms, os.path.join(rpd, '%s-%s.txt' % (pid, nm)), []),))))
        if ok:
            for n in u.get('proofs', []):
                nm, bud = nb(n)
                bud = min((bud or 240) * (3 if thorough else 1), max(60, left() - 120))
                jobs.append((u, nm, pool.apply_async(proof_task, ((base + '.ll', nm, bud),))))
    proofs = []
    for u, nm, j in jobs:
        try:
            r = j.get(timeout=max(5, left() - 60))
        except multiprocessing.TimeoutError:
            r = dict(proof=nm, status='undecided', obligations=0, discharged=0, by={}, failed=[], undecided=[], error='check time budget', solver_s=0, wall_s=0,
                     functions=[], contracts=[], trusted=[], inexact=[], loops=[], covers=0, covers_ok=0, safety=0)
        r['driver'] = u['driver']
        proofs.append((u, r))
    natives = []
    for u, nm, kind, j in njobs:
        try:
            r = j.get(timeout=max(20, left() - 20))
        except multiprocessing.TimeoutError:
            r = dict(name=nm, rc='timeout', verdict=None, runs=0, skips=0, checks=0, what='', tail='')
        r['kind'] = kind
        r['driver'] = u['driver']
        natives.append((u, r))
    pool.terminate()
    pool.join()

    kf = [k for k in known() if k['property'] == pid and k.get('status') == 'known']
    kf_hit = {}
    viol = []

    def is_known(unit, what):
        for k in kf:
            if k['proof'] == unit and k['what'] in what:
                kf_hit[k['id']] = k
                return True
        return False
    # native failures: executed on the real code, hence real
    for u, r in natives:
        if r['verdict'] == 'FAIL':
            if is_known(r['name'], r['what']):
                continue
            rp = os.path.join(rpd, '%s-%s.txt' % (pid, r['name']))
            write_replay(rp, pid, u, r['name'], r['what'], r['tail'])
            viol.append((rp, '', r['name'], r['what']))
    vset = {v[2] for v in viol}
    undecided = []
    for u, r in proofs:
        if r['status'] == 'proved':
            continue
        if r['proof'] in vset:
            continue
        fails = [f for f in r['failed'] if not is_known(r['proof'], f['name'])]
        if r['failed'] and not fails and not r['undecided'] and not r['error']:
            r['status'] = 'known-finding'
            continue
        if not fails:
            undecided.append((u, r))
            continue
        # refuted obligation: replay the counterexample on the real code, then search natively
        base = os.path.join(WORK, u['driver'].replace('.cpp', ''))
        rp = os.path.join(rpd, '%s-%s.txt' % (pid, r['proof']))
        found = False
        if compiled[(u['driver'], 'nat')][0]:
            for f in fails:
                if 'inputs' in f and r['proof'] in native_names(base + '.exe'):
                    inp = os.path.join(WORK, 'in.txt')
                    with open(inp, 'w') as fh:
                        fh.write('# proof %s\n# failed %s\n' % (r['proof'], f['name']))
                        for n, v in f['inputs']:
                            fh.write('%s %d\n' % (n, v))
                    out = os.path.join(WORK, 'out.txt')
                    rr = run_native([base + '.exe', '--replay', r['proof'], inp, '--out', out, '--ms', '20000'], r['proof'], 60)
                    if rr['verdict'] == 'FAIL' and not is_known(r['proof'], rr['what']):
                        shutil.copy(inp, rp)
                        write_replay(rp, pid, u, r['proof'], rr['what'], rr['tail'])
                        viol.append((rp, '', r['proof'], rr['what']))
                        found = True
                        break
            if not found and left() > 60:
                ms = int(min(45, max(5, left() - 90)) * 1000)
                hunts = [(u, r['proof'])] if r['proof'] in native_names(base + '.exe') else []
                for u2 in units:
                    if compiled[(u2['driver'], 'nat')][0]:
                        hunts += [(u2, nb(n)[0]) for n in u2.get('natives', [])]
                hunts = hunts[:4]
                hj = [(uu, h, s) for (uu, h) in hunts for s in range(3)]
                with multiprocessing.Pool(8) as p2:
                    rs = p2.map(native_task, [(os.path.join(WORK, uu['driver'].replace('.cpp', '')) + '.exe', h, SEED + 77 + s, ms, os.path.join(WORK, 'h_%s_%d.txt' % (h, s)), []) for (uu, h, s) in hj], chunksize=1)
                for (uu, h, s), rr in zip(hj, rs):
                    if rr['verdict'] == 'FAIL' and not is_known(h, rr['what']):
                        src = os.path.join(WORK, 'h_%s_%d.txt' % (h, s))
                        if os.path.exists(src):
                            shutil.copy(src, rp)
                        write_replay(rp, pid, uu, h, rr['what'], rr['tail'])
                        viol.append((rp, '', h, rr['what']))
                        found = True
                        break
        if not found:
            if r['proof'] in u.get('soft', []):
                undecided.append((u, r))
                continue
            with open(rp, 'w') as fh:
                fh.write('# property %s\n# proof %s (driver %s)\n# failed obligations (no failing input found):\n' % (pid, r['proof'], u['driver']))
                fh.write(json.dumps(fails, indent=1) + '\n# verifier output\n' + json.dumps({k: v for k, v in r.items() if k not in ('functions',)}, indent=1, default=str) + '\n')
            viol.append((rp, ' no-failing-input-found', r['proof'], fails[0]['name']))

    # ------------------------------------------------------------------ evidence
    nobl = sum(r['obligations'] for _, r in proofs)
    ndis = sum(r['discharged'] for _, r in proofs)
    by = {}
    for _, r in proofs:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    expected = sum(len(u.get('proofs', [])) for u in units)
    cov = dict(obligations=nobl, discharged=ndis,
               checker_cmd='python3-vt engine/check.py %s   (IR: clang++-18 -S -emit-llvm of drivers/*.cpp including the headers of /repo; VC generation engine/symex.py; solvers z3 %s, fallback cvc5, z3-new)' % (pid, prove.z3.get_version_string()),
               trusted_base=['clang 18 front end and opt passes sroa/early-cse/instsimplify/simplifycfg/loop-simplify (verified text is the LLVM IR of the real headers; production builds with g++)',
                             'engine/symex.py + models.py (VC generator)', 'z3 / cvc5', 'libstdc++ (executed as IR; _GLIBCXX_ASSERTIONS turn its preconditions into obligations)',
                             'operator new never fails; exceptions end the path'] + sorted({t for _, r in proofs for t in r['trusted']}),
               discharged_by=by, solver_s=round(sum(r['solver_s'] for _, r in proofs), 2),
               proofs=[dict(proof=r['proof'], driver=r['driver'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], safety_obligations=r['safety'],
                            covers='%d/%d' % (r['covers_ok'], r['covers']), by=r['by'], contracts_used=r['contracts'], loop_invariants=r['loops'], wall_s=r['wall_s'], solver_s=r['solver_s'],
                            error=r['error'], undecided=r['undecided'], failed=[{k: v for k, v in f.items() if k != 'inputs'} for f in r['failed']]) for _, r in proofs],
               functions_under_contract=sorted({f[:180] for _, r in proofs for f in r['functions']}),
               proofs_expected=expected, proofs_proved=sum(1 for _, r in proofs if r['status'] == 'proved'),
               undecided=[dict(proof=r['proof'], error=r['error'], obligations=[f['name'] for f in r['undecided']]) for _, r in undecided],
               bounded_stand_ins=[dict(name=r['name'], kind='bounded: native execution of the %s' % ('same contract' if r['kind'] == 'contract' else 'end-to-end contract'), runs=r['runs'], skipped=r['skips'], checks=r['checks'], verdict=r['verdict'] or str(r['rc'])) for _, r in natives if r['runs'] or r['verdict'] != 'OK'],
               bounded_note=P.get('bounded', ''),
               known_findings=sorted(kf_hit), notes=notes)
    ass = list(P.get('assumptions', []))
    for u, r in proofs:
        for x in r['inexact']:
            ass.append('%s: %s' % (r['proof'], x))
        if r.get('pruned_throw_paths'):
            ass.append('%s: %d path(s) ending in a thrown exception/abort are not constrained by the postcondition' % (r['proof'], r['pruned_throw_paths']))
    ass.append('partial correctness: termination is not proved for loops handled by invariants')
    level = P.get('level', 'proof')
    if level == 'exploration':
        cov['evaluations'] = sum(r['runs'] for _, r in natives)
        cov['distinct_nontrivial'] = sum(r['runs'] - r['skips'] for _, r in natives)
        cov['rule'] = P.get('rule', 'seeded random cases; non-trivial = precondition met')
        cov['samples'] = [r['name'] for _, r in natives]
    if level == 'other':
        cov['explanation'] = P.get('explanation', '')
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - T0, 1), violations=len(viol))
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in kf:
        if k['id'] in kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['title']))
    for n in notes:
        print('note: ' + n)
    for _, r in undecided:
        print('undecided (bounded stand-in decides): %s: %s %s' % (r['proof'], r['error'] or '', [f['name'] for f in r['undecided']][:4]))
    print('%s: proofs %d/%d, obligations %d/%d discharged, native runs %d, %.0fs' % (pid, cov['proofs_proved'], expected, ndis, nobl, sum(r['runs'] for _, r in natives), time.time() - T0))
    if viol:
        for rp, suffix, nm, what in viol:
            print('failed: %s: %s' % (nm, what))
        for rp, suffix, nm, what in sorted(viol, key=lambda v: v[1]):
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, suffix))
            break
        return 1
    if not any(r['verdict'] == 'OK' for _, r in natives) and not any(r['status'] == 'proved' for _, r in proofs):
        print('nothing could be checked')
        return 2
    return 0


def native_names(exe):
    try:
        o = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).stdout.decode()
    except Exception:
        return set()
    return {l.split()[1] for l in o.splitlines() if len(l.split()) == 2}


def nb(n):
    return n if isinstance(n, tuple) else (n, None)


def first_err(o):
    m = re.search(r'[^\n]*error[^\n]*', o or '')
    return (m.group(0) if m else (o or ''))[:300]


def write_replay(rp, pid, u, name, what, tail):
    old = open(rp).read() if os.path.exists(rp) else ''
    with open(rp, 'w') as f:
        f.write('# property %s\n# driver %s\n# contract %s\n# violated %s\n# replay: engine/replay.sh %s %s %s\n' % (pid, u['driver'], name, what, u['driver'], name, rp))
        f.write(old)
        if tail:
            f.write(''.join('# out: ' + l + '\n' for l in tail.strip().split('\n')[-12:]))


if __name__ == '__main__':
    sys.exit(main())
