#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
Compiles the property's contract files together with the current sources of /repo, generates the proof obligations,
discharges them, and on failure replays against the compiled real code."""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
PY = 'python3-vt'
LLVM = '/usr/lib/llvm-18/bin'
CONTRACTS = os.path.join(VERIF, 'contracts')
BASE = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-gno-column-info', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w',
        '-DBOOST_NO_CXX11_SCOPED_ENUMS', '-DUSE_NLOPT', '-DVirtualRobot_SRC_DATA_PATH="/nonexistent"', '-DSimox_DATA_PATH="data"',
        '-DgetMotorTargetVelosity=getMotorTargetVelocity', '-DgNumDeepPenetrationChecks=gNumClampedCcdMotions', '-DgNumGjkChecks=gNumClampedCcdMotions',
        '-I' + REPO, '-I' + os.path.join(REPO, 'VirtualRobot/CollisionDetection/PQP'), '-I' + os.path.join(REPO, 'VirtualRobot/CollisionDetection/PQP/PQP++'),
        '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/bullet', '-I' + os.path.join(REPO, 'GraspPlanning/ExternalDependencies/qhull-2003.1/include')]
JOBS = 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def die(msg):
    print('CHECK-ERROR ' + msg)
    sys.exit(2)

def vcdump(build):
    """path of the IR dumper (built from engine/vcdump.cpp when it is not there)"""
    src = os.path.join(HERE, 'vcdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    cache = os.path.join(VERIF, '.build')
    p = os.path.join(cache, 'vcdump-' + h)
    if os.path.exists(p): return p
    os.makedirs(cache, exist_ok=True)
    fl = subprocess.run([LLVM + '/llvm-config', '--cxxflags'], stdout=subprocess.PIPE).stdout.decode().split()
    fl = [f for f in fl if not f.startswith('-std=')]
    ld = subprocess.run([LLVM + '/llvm-config', '--ldflags', '--libs'], stdout=subprocess.PIPE).stdout.decode().split()
    tmp = p + '.%d' % os.getpid()
    r = sh(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-w'] + fl + [src, '-o', tmp] + ld)
    if r.returncode: die('vcdump does not build: ' + r.stdout.decode()[-2000:])
    os.rename(tmp, p)
    return p

def header(path):
    h = {'tu': [], 'property': None, 'bounded': {}, 'opt': {}, 'flags': [], 'assume': [], 'hopt': {}}
    for l in open(path):
        m = re.match(r'//\s*VC-([A-Z-]+):\s*(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'TU':
            for t in v.split(): h['tu'] += open(os.path.join(CONTRACTS, t[1:] + '.tu')).read().split() if t.startswith('%') else [t]
        elif k == 'PROPERTY': h['property'] = v
        elif k == 'BOUNDED':
            n, t = v.split(':', 1)
            h['bounded'][n.strip()] = t.strip()
        elif k == 'OPT':
            for kv in v.split():
                a, b = kv.split('=')
                h['opt'][a] = float(b) if re.match(r'^[\d.]+$', b) else b
        elif k == 'HOPT':
            n, t = v.split(':', 1)
            d = h['hopt'].setdefault(n.strip(), {})
            for kv in t.split():
                a, b = kv.split('=')
                d[a] = float(b) if re.match(r'^[\d.]+$', b) else b
        elif k == 'FLAGS': h['flags'] += v.split()
        elif k == 'ASSUME': h['assume'].append(v)
    return h

class Unit(object):
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.h = header(path)
        src = open(path).read()
        src2 = re.sub(r'//.*', '', src)
        self.harnesses = re.findall(r'void\s+(vc_harness_\w+)\s*\(', src2)
        for m in re.finditer(r'VC_HARNESS\((\w+)\)', src2): self.harnesses.append('vc_harness_' + m.group(1))

def units_of(prop):
    us = []
    for f in sorted(os.listdir(CONTRACTS)):
        if not f.endswith('.cpp') or f in ('native.cpp', 'support.cpp'): continue
        u = Unit(os.path.join(CONTRACTS, f))
        if u.h['property'] == prop: us.append(u)
    return us

def compile_bc(src, out, flags=()):
    r = sh(['clang++'] + BASE + list(flags) + ['-I' + CONTRACTS, '-emit-llvm', '-c', src, '-o', out])
    return r.returncode, r.stdout.decode(errors='replace')

def native_build(build, unit, bcs, hbc):
    """executable with the unmodified real code; returns path or None"""
    exe = os.path.join(build, unit.name + '.native')
    if os.path.exists(exe): return exe
    objs = []
    jobs = []
    def obj(bc):
        o = bc[:-3] + '.o'
        if not os.path.exists(o):
            r = sh(['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-fPIE', '-ffunction-sections', '-fdata-sections', '-c', bc, '-o', o])
            if r.returncode: return None
        return o
    reg = os.path.join(build, unit.name + '.reg.cpp')
    with open(reg, 'w') as f:
        f.write('struct VcReg { const char* name; void (*fn)(); };\n')
        for h in unit.harnesses: f.write('extern "C" void %s();\n' % h)
        f.write('extern VcReg vc_registry[];\nVcReg vc_registry[] = {%s {0,0}};\n' % ''.join('{"%s", %s},' % (h, h) for h in unit.harnesses))
    def rt():
        o = os.path.join(build, unit.name + '.rt.o')
        r = sh(['clang++', '-O1', '-w', '-std=c++11', '-c', os.path.join(CONTRACTS, 'native.cpp'), '-o', o])
        o2 = os.path.join(build, unit.name + '.reg.o')
        sh(['clang++', '-O1', '-w', '-std=c++11', '-c', reg, '-o', o2])
        return (o, o2)
    with ThreadPoolExecutor(JOBS) as ex:
        fr = ex.submit(rt)
        fs = [ex.submit(obj, b) for b in [hbc] + bcs]
        objs = [f.result() for f in fs]
        rto = fr.result()
    if any(o is None for o in objs): return None
    # callees replaced by a contract in the replay as well (VC_MOCK): all references go to the replacement
    text = open(unit.path).read()
    for h in re.findall(r'#include "(\w+\.h)"', text): text += open(os.path.join(CONTRACTS, h)).read()
    mocks = re.findall(r'VC_MOCK\("([^"]+)"\)\s*[^(;{]*?(\w+)\(', text)
    if mocks:
        syms = {}
        for o in objs:
            names = sorted(set(l.split()[-1] for l in sh(['nm', o]).stdout.decode().splitlines() if l.split()))
            dem = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
            for n, d in zip(names, dem): syms.setdefault(re.sub(r'> (?=>)', '>', d), n)
        ren = []
        for real, stub in mocks:
            to = [n for d, n in syms.items() if d.startswith(stub + '(')]
            real = re.sub(r'> (?=>)', '>', real)
            if real in syms and to: ren.append('--redefine-sym=%s=%s' % (syms[real], to[0]))
        objs = [objs[0]] + [o[:-2] + '.' + unit.name + '.o' for o in objs[1:]]
        for o in objs[1:]: sh(['objcopy'] + ren + [o[:-len(unit.name) - 3] + '.o', o])
    r = sh(['clang++', '-no-pie', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,muldefs'] + objs + list(rto) + ['-o', exe] + unit.h.get('libs', []) + ['-lpthread'])
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
        return None
    return exe

def run_native(exe, harness, trials, seed, model, build, limit=60):
    mf = '/dev/null'
    if model:
        mf = os.path.join(build, 'model.%s.%d' % (harness, threading.get_ident()))
        with open(mf, 'w') as f:
            for k, v in model.items(): f.write('%s %.17g\n' % (k.replace(' ', '_'), v))
    try:
        r = subprocess.run([exe, harness, str(trials), str(seed), mf, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    o = r.stdout.decode(errors='replace')
    if r.returncode == 10: return True, o
    if r.returncode == 0: return False, o
    return None, o + '(exit %d)' % r.returncode

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s*property=(\S+)\s+harness=(\S+)\s+label="([^"]*)"\s*(.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == '--setup': return print(vcdump(None))
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1]
    fornative = '--native' in a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    us = units_of(prop)
    if not us: die('no contract files for ' + prop)
    build = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        rc = run(prop, us, tier, only, verbose, seed, t0, build, fornative)
    finally:
        if '--keep' in a: print('build', build)
        else: shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)

def run(prop, us, tier, only, verbose, seed, t0, build, fornative):
    tus = sorted(set(t for u in us for t in u.h['tu']))
    bc = {}
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        fd = ex.submit(vcdump, build)
        fs = {}
        for t in tus:
            o = os.path.join(build, t.replace('/', '_') + '.bc')
            src = os.path.join(REPO, t)
            if t.startswith('@'): src = os.path.join(CONTRACTS, t[1:])
            fs[t] = (ex.submit(compile_bc, src, o), o)
        hs = {}
        for u in us:
            o = os.path.join(build, u.name + '.bc')
            hs[u.name] = (ex.submit(compile_bc, u.path, o, u.h['flags']), o)
        dumper = fd.result()
        for t, (f, o) in fs.items():
            rc, m = f.result()
            if rc: errs.append('%s does not compile: %s' % (t, m[-3000:]))
            bc[t] = o
        for n, (f, o) in hs.items():
            rc, m = f.result()
            if rc: errs.append('contract file %s does not compile against the current headers: %s' % (n, m[-3000:]))
            bc[n] = o
    if errs:
        for e in errs: print(e)
        die('compilation failed')
    t1 = time.time()
    def dump(u):
        o = os.path.join(build, u.name + '.vc')
        env = dict(os.environ, VC_REPO=REPO)
        r = sh([dumper, o, bc[u.name]] + [bc[t] for t in u.h['tu']], env=env)
        return r.returncode, r.stdout.decode(errors='replace'), o
    with ThreadPoolExecutor(JOBS) as ex: ds = list(ex.map(dump, us))
    for u, (rc, m, o) in zip(us, ds):
        if rc: die('vcdump failed for %s: %s' % (u.name, m[-2000:]))
        u.dump = o
    t2 = time.time()
    tasks = [(u, h) for u in us for h in u.harnesses if only is None or only in h]
    if not tasks: die('no harnesses')
    results = {}
    quick = tier == 'quick'
    deadline = [t0 + (430 if quick else 1500)]
    def work(uh, scale=1, flip=False):
        u, h = uh
        out = os.path.join(build, h + ('.flip' if flip else '') + '.json')
        if os.path.exists(out): os.unlink(out)
        opts = {'timeout': 8000, 'budget': 300}
        opts.update(u.h['opt'])
        opts.update(u.h['hopt'].get(h, {}))
        opts.update(u.h['hopt'].get(h.replace('vc_harness_', ''), {}))
        if flip: opts['merge'] = not opts.get('merge', True)
        if tier == 'thorough': scale *= 3
        opts['timeout'] *= scale
        opts['budget'] *= scale
        left = deadline[0] - time.time()
        opts['budget'] = max(5, min(opts['budget'], left - 20))
        log = open(out[:-5] + '.log', 'w')
        try:
            subprocess.run([PY, os.path.join(HERE, 'worker.py'), u.dump, h, out, json.dumps(opts)], stdout=log, stderr=subprocess.STDOUT, timeout=max(20, min(opts['budget'] * 1.5 + 60, left)))
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(out): return json.load(open(out))
        return {'harness': h, 'error': 'worker died: ' + open(log.name).read()[-800:], 'obligations': [], 'covers': {}, 'bounded': [], 'paths': 0, 'steps': 0, 'wall': 0,
                'assumptions': [], 'stubs': [], 'invs': [], 'functions': [], 'solver': {'seconds': {}, 'discharged': {}, 'queries': 0}}
    with ThreadPoolExecutor(JOBS) as ex:
        for (u, h), r in zip(tasks, ex.map(work, tasks)): results[h] = (u, r)
    t3 = time.time()
    # evaluate
    kf = known_findings(prop)
    def failures(r):
        fails = {}
        for o in r['obligations']:
            if o['verdict'] != 'proved': fails.setdefault(o['label'], o)
            if o['verdict'] == 'refuted' and fails[o['label']]['verdict'] != 'refuted': fails[o['label']] = o
        dummy = {'verdict': 'unknown', 'where': '', 'detail': '', 'model': None, 'backend': ''}
        if r['error']: fails['(%s)' % r['error'][:300]] = dict(dummy, label='harness could not be completed: ' + r['error'][:1500])
        elif not r['obligations']: fails['(vacuous)'] = dict(dummy, label='no obligations were generated')
        else:
            for l, c in r['covers'].items():
                if c == 'unsat': fails['cover ' + l] = dict(dummy, label='postcondition never reached: ' + l)
        return fails
    bad = []
    for h, (u, r) in results.items():
        fails = failures(r)
        if verbose:
            print('%-40s %4d obligations %4d proved  %5.1f s  paths %d %s %s' % (h, len(r['obligations']), sum(o['verdict'] == 'proved' for o in r['obligations']), r['wall'], r['paths'], 'BOUNDED' if r['bounded'] else '', r['error'] or ''))
            for l, o in fails.items(): print('     %s: %s  at %s\n        %s\n        %s' % (o['verdict'], l, o['where'], o['detail'][:600], json.dumps(o['model'])[:500] if o['model'] else ''))
        if fails: bad.append((h, u, r, fails))
    violations = []
    known = []
    if not quick: fornative = True
    if bad or fornative:
        exes = {}
        for u in us:
            if fornative or any(b[1] is u for b in bad):
                exes[u.name] = native_build(build, u, [bc[t] for t in u.h['tu']], bc[u.name])
                if exes[u.name] is None: print('note: the native replay program of %s could not be built' % u.name)
        natives = []
        if fornative:
            for h, (u, r) in results.items():
                if exes.get(u.name) and not any(b[0] == h for b in bad): natives.append((u, h))
            with ThreadPoolExecutor(JOBS) as ex:
                for (u, h), (ok, out) in zip(natives, ex.map(lambda uh: run_native(exes[uh[0].name], uh[1], int(os.environ.get('VC_TRIALS', '20000')), seed, None, build, 60), natives)):
                    print(h, 'native', out.replace('\n', ' ')[:600 if ok or verbose else 60])
        def replay(b):
            h, u, r, fails = b
            exe = exes.get(u.name)
            if exe is None: return b, None, ''
            for o in fails.values():
                if o['model']:
                    ok, out = run_native(exe, h, 400, seed, o['model'], build, 20)
                    if ok: return b, True, out
            ok, out = run_native(exe, h, 400000, seed, None, build, 25 if quick else 120)
            return b, ok, out
        with ThreadPoolExecutor(JOBS) as ex: reps = list(ex.map(replay, bad))
        # no failing input: the solvers may have been short of time, and joining the states of branches, or not joining them,
        # may have lost what the proof needs; ask again with more time and the other way round (either proof is one)
        again = [(i, False) for i, (b, ok, out) in enumerate(reps) if not ok and not b[2]['error'] and not any(o['verdict'] == 'refuted' for o in b[3].values())]
        again += [(i, True) for i, (b, ok, out) in enumerate(reps) if not ok]
        deadline[0] = t0 + (720 if quick else 3000)
        if again and deadline[0] - time.time() > 60:
            with ThreadPoolExecutor(max(1, JOBS // 2)) as ex: rr = list(ex.map(lambda x: work((reps[x[0]][0][1], reps[x[0]][0][0]), 2.5, x[1]), again))
            drop = set()
            for (i, flip), r in zip(again, rr):
                b, ok, out = reps[i]
                f = failures(r)
                if i in drop: continue
                if not f or not flip and len(f) <= len(b[3]) and not r['error']:
                    results[b[0]] = (b[1], r)
                    reps[i] = ((b[0], b[1], r, f), ok, out)
                if not f: drop.add(i)
            reps = [x for i, x in enumerate(reps) if i not in drop]
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for (h, u, r, fails), ok, out in reps:
            labels = set(fails)
            lab = None
            if ok:
                m = re.search(r'FAIL (.*)', out)
                lab = m.group(1) if m else ''
            kn = [k for k in kf if k[0] == h and (k[1] in labels or (lab or '').startswith(k[1]))]
            if kn and all(l in [k[1] for k in kn] for l in labels) and (not ok or any((lab or '').startswith(k[1]) for k in kn)):
                known += kn
                continue
            path = os.path.join(VERIF, 'replay', '%s-%s.txt' % (prop, h.replace('vc_harness_', '')))
            with open(path, 'w') as f:
                f.write('property %s\ncontract %s in %s\n' % (prop, h, os.path.relpath(u.path, VERIF)))
                for o in fails.values():
                    f.write('failed obligation: %s\n  verdict: %s (%s)\n  at: %s\n  %s\n' % (o['label'], o['verdict'], o['backend'], o['where'], o['detail']))
                    if o['model']: f.write('  model: %s\n' % json.dumps(o['model']))
                if ok: f.write('\nfailing input, executed on the compiled code of the current tree:\n' + out)
                else: f.write('\nno failing input was found by running the contract natively: %s\n' % (out or '')[:400])
            violations.append((h, ok, path, fails))
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s %s' % (prop, k[1], k[2]))
    for h, ok, path, fails in violations:
        print('contract %s: %s' % (h, '; '.join(list(fails)[:4])))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if ok else ' no-failing-input-found'))
    nobl = sum(len(r['obligations']) for _, r in results.values())
    ndis = sum(o['verdict'] == 'proved' for _, r in results.values() for o in r['obligations'])
    # evidence
    fns = sorted(set(f for _, r in results.values() for f in r['functions']))
    back = {}
    secs = {}
    for _, r in results.values():
        for o in r['obligations']:
            if o['verdict'] == 'proved': back[o['backend'] or '?'] = back.get(o['backend'] or '?', 0) + 1
        for k, v in r['solver']['seconds'].items(): secs[k] = round(secs.get(k, 0) + v, 2)
    bnd = {}
    for h, (u, r) in results.items():
        t = u.h['bounded'].get(h.replace('vc_harness_', '')) or u.h['bounded'].get(h)
        if t: bnd[h] = t
        if r['bounded']: bnd[h] = (bnd.get(h, '') + ' ' + '; '.join(r['bounded'])).strip()
    nb = sum(len(results[h][1]['obligations']) for h in bnd)
    nbd = sum(o['verdict'] == 'proved' for h in bnd for o in results[h][1]['obligations'])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if nobl > nb else 'other', 'coverage': {
        'obligations': nobl - nb, 'discharged': ndis - nbd,
        'checker_cmd': 'python3 engine/check.py %s' % prop,
        'trusted_base': ['engine/ (VC generator and normaliser of this repository)', 'clang 18 front end and the LLVM passes run by vcdump', 'z3', 'cvc5', 'models of libstdc++/libm runtime functions listed in DESIGN.md'],
        'contracts': len(results), 'contract_files': [os.path.relpath(u.path, VERIF) for u in us],
        'functions_under_contract': fns, 'functions_under_contract_count': len(fns),
        'discharged_by': back, 'solver_seconds': secs,
        'paths': sum(r['paths'] for _, r in results.values()),
        'bounded_contracts': bnd, 'bounded_obligations': nb, 'bounded_obligations_discharged_within_their_bound': nbd,
        'abstracted_callees': sorted(set(s for _, r in results.values() for s in r['stubs'])),
        'loop_invariants': sorted(set(s for _, r in results.values() for s in r['invs'])),
        'reachable_postconditions': sum(1 for _, r in results.values() for c in r['covers'].values() if c == 'sat'),
        'per_contract': {h: {'obligations': len(r['obligations']), 'discharged': sum(o['verdict'] == 'proved' for o in r['obligations']), 'seconds': round(r['wall'], 1)} for h, (u, r) in results.items()},
        'seconds': {'compile': round(t1 - t0, 1), 'extract': round(t2 - t1, 1), 'prove': round(t3 - t2, 1)}},
        'assumptions': sorted(set(['floating point arithmetic is treated as real arithmetic; literals such as 3.14159f or 1e-10 stand for the simplest real they round to',
                                   'int and size_t arithmetic wraps as on the target; pointers into different objects never compare equal']
                                  + [x for _, r in results.values() for x in r['assumptions']] + [x for u in us for x in u.h['assume']])),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    if ev['level'] == 'other': ev['coverage']['explanation'] = 'contracts with unbounded machine arithmetic over reals but bounded sizes, see bounded_contracts'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None: json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d functions, %.0f s (compile %.0f, extract %.0f, prove %.0f)' % (prop, len(results), nobl, ndis, len(fns), time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    return 1 if violations else 0

main()
