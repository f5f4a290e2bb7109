#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   search for violations; see DESIGN.md
   check.py PROPERTY --replay FILE      run a replay file again
Builds the simulations it needs from /repo's working tree into /verif/build."""
import sys, os, subprocess, json, time, struct, random, shutil, re, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = HERE + '/sim'
CXX = 'clang++'
WRAP = ['-Wl,--wrap=' + f for f in 'malloc free calloc realloc posix_memalign aligned_alloc strlen memcmp'.split()]
INSTR = ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O1', '-g', '-I' + REPO, '-I/usr/include/eigen3', '-I' + SIM]

# property -> workloads searched, with their share of the workers
PROPS = {
    'C02': {'alg1': 1, 'alg2': 1}, 'C03': {'alg1': 1, 'alg2': 1}, 'C04': {'alg1': 1, 'alg2': 1}, 'C05': {'alg1': 1, 'alg2': 1},
    'C06': {'alg1': 1}, 'C07': {'alg1': 1}, 'C08': {'alg2': 1},
    'C01': {'ids': 1}, 'C09': {'io': 1}, 'C10': {'io': 1}, 'C11': {'fn': 1}, 'C12': {'ureals': 1}, 'C13': {'stat': 1}, 'C14': {'init': 1},
}
PARTS = {'ids': 4, 'alg2': 4, 'fn': 6, 'init': 4, 'ureals': 4, 'stat': 4, 'io': 4}   # translation units the workload is split in
STATICS = ('C01', 'C14')   # also the static initialisation probe
LOCALES = ('de_DE', 'ps_AF')
REAL = {
    'alg1': 'ureal.hpp, core.hpp, math.hpp, io.hpp, impl.hpp, internal/* (all real, compiled from /repo); libstdc++ containers and strings real, its red-black tree functions re-implemented in sim/tree.cpp so that they are observed; ostringstream real',
    'alg2': 'ureal2.hpp, distr.hpp, core.hpp, math.hpp, io.hpp, impl.hpp, internal/* (all real, compiled from /repo); Eigen and libstdc++ real, red-black tree as for alg1',
    'ids': 'ureal.hpp, ureal2.hpp, distr.hpp, math.hpp, ureals.hpp, impl.hpp, internal/* (all real)',
    'io': 'io.hpp, ureal.hpp, ureal2.hpp, stat.hpp, impl.hpp, internal/format.hpp (all real), std::ostream and std::locale real; the stream buffer is the workload\'s (it accepts, refuses or throws at any byte)',
    'fn': 'math.hpp and functions.hpp builders uunary, ubinary, uunary2, ubinary2, ureal.hpp, ureal2.hpp (all real); callbacks are the workload\'s',
    'ureals': 'ureals.hpp, ureal.hpp, stat.hpp, Eigen LDLT (all real)',
    'stat': 'stat.hpp, ureal.hpp, ureal2.hpp, Eigen (all real); containers and output iterators are the workload\'s',
    'init': 'math.hpp, distr.hpp, io.hpp, ureal.hpp, ureal2.hpp, impl.hpp, internal/* (all real); __cxa_guard_* simulated',
    'statics': 'everything real, uninstrumented, compiled by g++ and clang++; the order of static initialisation is what is drawn',
}
STUB = 'allocator, threads scheduling, mutexes/once/static guards, atomics memory order, clocks: simulated by sim/rt.cpp; user numerical type SimReal and the user threads are part of the workload'
RULE = {
    'alg1': 'a program (operations on a pool of variables, per thread, with fault sweeps) drawn from the seed, run serially and then under drawn schedules (preemptions, weak loads); a run is non-trivial if a context switch happened or a fault fired; distinct by the hash of all its events',
    'alg2': 'as alg1, with second order variables',
    'ids': 'a program of constructions, copies, failing constructions and numbers of skipped ids drawn from the seed, run serially and under drawn schedules',
    'io': 'a program of writes to streams with drawn flags, width, mask, locale and failing byte, and format calls amid changes of ambient state, run serially and under drawn schedules',
    'fn': 'a program which builds functions from callbacks, copies, swaps, destroys and calls them (also from callbacks) with drawn throwing invocations, run serially and under drawn schedules',
    'ureals': 'a program of ureals calls with drawn matrices (regular, diagonal, nearly singular, invalid) and fault sweeps, run serially and under drawn schedules',
    'stat': 'a program of stat.hpp calls on drawn sequences with containers and output iterators failing at drawn elements, run serially and under drawn schedules',
    'init': 'a program of first uses of functions with tables in a process where nothing was used, with drawn faults in the initialisation, run serially and under drawn schedules',
}

class Err(Exception): pass

def build(wl, bdir):
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    def cc(src, std, flags, suffix='.o'):
        o = bdir + '/' + os.path.basename(src).replace('.cpp', suffix)
        cmd = [CXX, '-std=' + std, '-Wno-reorder-ctor', '-Wno-everything'] + flags + ['-c', src, '-o', o]
        jobs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
        return o
    common = [cc(SIM + '/driver.cpp', 'c++17', INSTR), cc(SIM + '/tree.cpp', 'c++17', INSTR), cc(SIM + '/lib.cpp', 'c++11', INSTR), cc(SIM + '/rt.cpp', 'c++17', ['-O2', '-g'])]
    objs = {w: [cc(SIM + '/w_%s.cpp' % w, 'c++11', INSTR + ['-DPART=%d' % i], '-%d.o' % i) for i in range(PARTS.get(w, 1))] for w in wl}
    for cmd, p in jobs:
        out = p.communicate()[0]
        if p.returncode: raise Err('build failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
    exe = {}
    for w in wl:
        exe[w] = bdir + '/sim_' + w
        cmd = [CXX, '-no-pie'] + objs[w] + common + ['-o', exe[w], '-pthread', '-ldl'] + WRAP
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode: raise Err('link failed:\n' + p.stdout[-3000:])
    return exe

# The order of static initialisation: three translation units using the library in
# static initialisers and the one with impl.hpp, linked in the drawn order. A
# replay file is the compiler, the options and the order.
STATICS_VARIANTS = [('g++', '-O0'), ('clang++', '-O0'), ('g++', '-O2'), ('clang++', '-O2')]
def statics_build(bdir, variants):
    os.makedirs(bdir, exist_ok=True); jobs = []
    for cxx, opt in variants:
        for o, src, fl in [('u%d' % t, 'statics/user.cpp', ['-DTU=%d' % t]) for t in (1, 2, 3)] + [('lib', 'lib.cpp', []), ('main', 'statics/main.cpp', [])]:
            jobs.append([cxx, '-std=c++11', opt, '-w', '-I' + REPO, '-I/usr/include/eigen3'] + fl + ['-c', SIM + '/' + src, '-o', '%s/%s%s-%s.o' % (bdir, cxx, opt, o)])
    run = []
    for j in jobs: run.append((j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    for j, p in run:
        out = p.communicate()[0]
        if p.returncode: raise Err('build failed: %s\n%s' % (' '.join(j), out[-3000:]))
def statics_run(bdir, cxx, opt, order, n):
    exe = '%s/statics-%d' % (bdir, n)
    p = subprocess.run([cxx] + ['%s/%s%s-%s.o' % (bdir, cxx, opt, o) for o in order] + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode: raise Err('link failed:\n' + p.stdout[-3000:])
    try: p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired: return 'C01 C14 stuck: the program does not end'
    finally: os.remove(exe)
    o = p.stdout.strip().split('\n')[-1]
    if p.returncode < 0: return 'C01 C14 crash: the program is killed by signal %d' % -p.returncode
    return o if p.returncode else ''
def statics_ours(prop, msg): return prop in msg.split(':')[0].split()
def statics_search(prop, bdir, seed, tier, out):
    variants = STATICS_VARIANTS[:4 if tier == 'thorough' else 2]
    statics_build(bdir, variants)
    import itertools
    rng = random.Random(seed); jobs = []
    for cxx, opt in variants:
        orders = list(itertools.permutations(['u1', 'u2', 'u3', 'lib', 'main'])); rng.shuffle(orders)
        jobs += [(cxx, opt, o) for o in orders[:None if tier == 'thorough' else 16]]
    with cf.ThreadPoolExecutor(len(os.sched_getaffinity(0))) as ex:
        r = list(ex.map(lambda j: statics_run(bdir, *j[1], j[0]), list(enumerate(jobs))))
    bad = [(j, m) for j, m in zip(jobs, r) if m and statics_ours(prop, m)]
    viol = None
    if bad:
        (cxx, opt, o), m = bad[0]
        path = out + '/statics.replay'
        open(path, 'w').write('static-initialisation-replay 1\nworkload statics\nproperty %s\ncompiler %s %s\norder %s\nexpect %s\n' % (prop, cxx, opt, ' '.join(o), m))
        if statics_run(bdir, cxx, opt, o, 10 ** 6) == m: viol = (path, m, cxx, opt, o)
        else: raise Err('the static initialisation probe is not deterministic: ' + m)
    return viol, len(jobs), [m for m in r if m and not statics_ours(prop, m)]
def statics_replay(prop, path, bdir):
    d = dict(l.rstrip('\n').split(' ', 1) for l in open(path))
    cxx, opt = d['compiler'].split(); statics_build(bdir, [(cxx, opt)])
    m = statics_run(bdir, cxx, opt, d['order'].split(), 0)
    print(m or 'no violation'); print('REPRODUCED' if m == d['expect'] else 'NOT REPRODUCED')
    return 1 if m else 0

def locales(bdir):
    d = bdir + '/locale'; os.makedirs(d, exist_ok=True)
    for l in LOCALES:
        try: subprocess.run(['localedef', '-c', '-i', l, '-f', 'UTF-8', d + '/' + l + '.UTF-8'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except Exception: pass
    os.environ['LOCPATH'] = d

def symbolize(exe, msg):
    addrs = re.findall(r'@([0-9a-f]+)', msg)
    if not addrs: return ''
    try: out = subprocess.run(['addr2line', '-Cfe', exe] + ['0x%x' % (int(a, 16) - 1) for a in addrs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60).stdout.split('\n')
    except Exception: return ''
    r = ''
    for i in range(0, len(out) - 1, 2):
        f = out[i + 1].replace(REPO + '/', '').replace(SIM + '/', 'sim/')
        n = out[i] if len(out[i]) < 100 else out[i][:97] + '...'
        r += '    %s  %s\n' % (f, n)
    return r

def known(prop):
    r = []
    try:
        for l in open(HERE + '/known-findings.txt'):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): r.append(l.split(' ', 2)[2])
    except FileNotFoundError: pass
    return r

def union(files):
    s = set()
    for f in files:
        try: b = open(f, 'rb').read()
        except FileNotFoundError: continue
        s.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    return len(s)

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == '--replay': replay = sys.argv[3]
        else: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ncpu = len(os.sched_getaffinity(0))
    secs = float(os.environ.get('VERIF_SECONDS') or (600 if tier == 'thorough' else 30))
    out = HERE + '/out/' + prop; bdir = HERE + '/build/' + prop
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(out, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    for f in os.listdir(out):
        if f.startswith(('inter-', 'states-')): os.remove(out + '/' + f)
    wl = PROPS[prop]
    if replay:
        w = [l.split()[1] for l in open(replay) if l.startswith('workload ')][0]
        if w == 'statics': return statics_replay(prop, replay, bdir)
        exe = build([w], bdir)
        if w == 'io': locales(bdir)
        return subprocess.run([exe[w], 'replay', replay]).returncode
    with cf.ThreadPoolExecutor(1) as ex:
        st = ex.submit(statics_search, prop, bdir + '/statics', seed, tier, out) if prop in STATICS else None
        exe = build(list(wl), bdir)
        if 'io' in wl: locales(bdir)
        sviol, sruns, sother = st.result() if st else (None, 0, [])
    tbuild = time.time() - t0
    # determinism, on a sample: the same programs in two processes give the same events
    det = []; errors = []
    for w in wl:
        a = [subprocess.Popen([exe[w], 'hashes', prop, str(seed), str(s), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=dict(os.environ, PAD='x' * pad)) for s, n, pad in ((0, 40, 1), (0, 40, 999), (20, 20, 5))]
        o = [p.communicate()[0].split('\n') for p in a]
        if any(p.returncode for p in a): errors.append('determinism test of %s failed to run: %s' % (w, [p.returncode for p in a]))
        elif o[0] != o[1] or o[0][-len(o[2]):] != o[2]: errors.append('the simulation %s is not deterministic' % w)
        det.append(len(o[0]) - 1 + len(o[2]) - 1)
    # search
    tot = sum(wl.values()); procs = []; k = 0
    for w, share in wl.items():
        nw = max(1, round(ncpu * share / tot))
        wout = out + '/' + w; shutil.rmtree(wout, ignore_errors=True); os.makedirs(wout)
        for i in range(nw):
            cmd = [exe[w], 'batch', prop, str(seed), str(i), str(nw), '1000000000', str(secs), wout] + (['thorough'] if tier == 'thorough' else [])
            f = open(wout + '/worker-%d.out' % i, 'w+', errors='replace'); e = open(wout + '/worker-%d.err' % i, 'w+', errors='replace')
            procs.append((w, cmd, subprocess.Popen(cmd, stdout=f, stderr=e, env=dict(os.environ, SIM_CPU=str(k))), f, e)); k += 1
    viol = []; stats = []
    pending = list(procs)
    while pending:
        time.sleep(.1)
        for q in list(pending):
            w, cmd, p, f, e = q
            if p.poll() is None: continue
            pending.remove(q)
            f.seek(0); e.seek(0); o = f.read(); err = e.read()
            lines = [l for l in o.split('\n') if l.startswith('{')]
            if p.returncode == 1 and lines:
                v = json.loads(lines[-1]); v['workload'] = w; viol.append(v)
                for q2 in pending: q2[2].kill()     # one is enough
            elif p.returncode == 0 and lines: s = json.loads(lines[-1]); s['workload'] = w; stats.append(s)
            elif p.returncode == -9 and viol: pass
            else: errors.append('%s ended with %s: %s %s' % (' '.join(cmd), p.returncode, o[-600:], err[-600:]))
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    gated = []
    for v in viol:
        r = subprocess.run([exe[v['workload']], 'replay', v['replay']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if r.returncode != 1 or 'REPRODUCED' not in r.stdout: errors.append('replay in a new process differs: %s: %s' % (v, r.stdout + r.stderr)); continue
        gated.append(v)
    tsearch = time.time() - t0 - tbuild
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(gated) + bool(sviol),
          'assumptions': ['gcc/libstdc++ and glibc are correct; memory accesses inside precompiled libstdc++ and glibc functions are not observed (their allocations and exceptions are)',
                          'threads are interleaved at memory accesses; weak memory is simulated for atomics only by stale loads and spurious failures'],
          'coverage': {}}
    c = ev['coverage']
    def S(k): return sum(s[k] for s in stats)
    c['evaluations'] = S('runs') + sum(v['runs'] for v in gated)
    c['distinct_nontrivial'] = union([out + '/%s/%s' % (w, f) for w in wl for f in os.listdir(out + '/' + w) if f.startswith('states-')])
    c['rule'] = '; '.join('%s: %s' % (w, RULE[w]) for w in wl)
    c['samples'] = [s['sample'] for s in stats if s.get('sample')][:3] or ['-']
    if gated: c['samples'] = [open(v['replay'], errors='replace').read() for v in gated] + c['samples']
    c['programs'] = S('programs'); c['seeds_per_hour'] = round(S('programs') / max(tsearch, .1) * 3600); c['runs_per_hour'] = round(S('runs') / max(tsearch, .1) * 3600)
    c['simulated_steps'] = S('events'); c['simulated_time'] = 'the code has no clock; simulated time is the number of steps (observed memory accesses, atomic and synchronisation operations, allocations)'
    c['context_switches'] = S('switches'); c['library_operations'] = S('ops'); c['oracle_checks'] = S('checks'); c['race_checks'] = S('racechecks'); c['atomic_operations'] = S('atomics'); c['allocations'] = S('allocs')
    c['distinct_interleavings'] = union([out + '/%s/%s' % (w, f) for w in wl for f in os.listdir(out + '/' + w) if f.startswith('inter-')])
    c['interleaving_measure'] = 'distinct sequences of context switches (from, to, event number)'
    fired = {}
    for s in stats:
        for k, n in s['fired'].items(): fired[k] = fired.get(k, 0) + n
    c['faults_injected'] = {k: n for k, n in fired.items() if n}
    c['probes'] = [sum(s['probes'][i] for s in stats) for i in range(32)] if stats else []
    c['violations_of_other_properties_ignored'] = S('otherprop')
    om = [s['othermsg'] for s in stats if s['othermsg']]
    if om: c['ignored_example'] = om[0]
    if prop in STATICS:
        c['static_initialisation_orders_run'] = sruns; c['evaluations'] += sruns
        if sviol: c['samples'] = [open(sviol[0]).read()] + c['samples']
        if sother: c['ignored_static_initialisation'] = sother[0]
    c['determinism_runs_compared'] = sum(det)
    c['real_components'] = {w: REAL[w] for w in list(wl) + (['statics'] if prop in STATICS else [])}; c['simulated_or_stub_components'] = STUB
    c['workers'] = len(procs); c['build_s'] = round(tbuild, 1)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for v in gated:
        print('%s: %s' % (v['violation'], v['message'])); print(symbolize(exe[v['workload']], v['message']), end='')
        print('seed %d program %d; minimised: operations %s, preemptions %s, faults %d' % (v['seed'], v['program'], v['ops'], v['preemptions'], v['faults']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if sviol:
        print('static initialisation, %s %s, objects in the order %s: %s' % (sviol[2], sviol[3], ' '.join(sviol[4]), sviol[1]))
        print('VIOLATION property=%s replay=%s' % (prop, sviol[0]))
    if gated or sviol: return 1
    if errors:
        for e in errors: print('ERROR', e, file=sys.stderr)
        return 3
    print('%s held in %d runs (%d programs), %d faults injected, %d distinct interleavings, %.0f s' % (prop, c['evaluations'], c['programs'], sum(fired.values()), c['distinct_interleavings'], time.time() - t0))
    if om: print('note: %d runs stopped at something which is not this property: %s' % (S('otherprop'), om[0]))
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Err as e: print('ERROR', e, file=sys.stderr); sys.exit(3)
