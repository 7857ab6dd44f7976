#!/usr/bin/env python3
"""Decide one property of Field3D by symbolic execution of the code in /repo.

usage: run.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep] [-v]

Every run recompiles the implementation from /repo's working tree to LLVM bitcode, links it
with a harness, and lets /verif/build/symex + Z3 decide the harness's assertions (and memory
safety, termination, absence of uncaught exceptions) for every value within the bounds.
Candidate counterexamples are replayed natively (clang, AddressSanitizer) before they count.
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, re, fcntl, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import specs
REPO = os.environ.get('SYM_REPO', '/repo')
H = VERIF + '/harness'
SYMEX = VERIF + '/build/symex'
NPROC = min(8, os.cpu_count() or 8)
MEMKB = 7_000_000
INC = ['-I', REPO + '/src', '-I', REPO + '/export', '-I', REPO + '/include', '-I', '/opt/vp/compat/include', '-I', '/usr/include/Imath', '-I', '/usr/include/hdf5/serial']
BCFLAGS = ['-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-ffp-contract=off', '-emit-llvm', '-c', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-DREQUIRE_IOSTREAM', '-w', '-DIMATH_HALF_NO_LOOKUP_TABLE', '-DSYM_ENGINE', '-I', H, '-I', H + '/shim'] + INC
NATFLAGS = ['-std=gnu++14', '-O0', '-g1', '-fsanitize=address', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-DREQUIRE_IOSTREAM', '-w', '-DIMATH_HALF_NO_LOOKUP_TABLE', '-I', H] + INC
SANFLAGS = {'asan': ['-O0', '-fsanitize=address'], 'tsan': ['-O1', '-fsanitize=thread'], 'sched': ['-O0', '-fsanitize=thread']}
NATFLAGS = [x for x in NATFLAGS if x not in ('-O0', '-fsanitize=address')]
NATLIBS = ['-lboost_thread', '-lboost_system', '-lboost_regex', '-lhdf5_serial', '-lz', '-lImath-3_1', '-ldl', '-lpthread']

def log(*a): print(*a, flush=True)

def build_engine():
    if os.environ.get('SYM_NOBUILD'): return
    os.makedirs(VERIF + '/build', exist_ok=True)
    with open(VERIF + '/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-C', VERIF + '/engine', '-j8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: log(r.stdout[-3000:]); log('ERROR: engine does not build'); sys.exit(3)

class Run:
    def __init__(self, prop, tier, only, keep, verbose):
        self.prop, self.tier, self.only, self.keep, self.verbose = prop, tier, only, keep, verbose
        self.w = tempfile.mkdtemp(prefix='f3dsym.', dir='/tmp')
        self.t0 = time.time(); self.deadline = self.t0 + (840 if tier == 'quick' else 6 * 3600)
        self.procs = set(); self.lock = threading.Lock(); self.stop = False
        self.nat_lock = threading.RLock(); self.nat_ready = {}; self.nat_err = ''
        self.natbin = {}
    def sh(self, cmd, timeout=None, env=None, memkb=None, cwd=None):
        """run a command in its own process group; returns (rc, output); rc None on timeout"""
        def pre():
            os.setsid()
            if memkb:
                import resource; resource.setrlimit(resource.RLIMIT_AS, (memkb * 1024, memkb * 1024))
        with self.lock:
            if self.stop: return (-1, 'stopped')
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=pre, env=env, cwd=cwd)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout); return (p.returncode, out)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            out, _ = p.communicate(); return (None, out)
        finally:
            with self.lock: self.procs.discard(p)
    def killall(self):
        with self.lock:
            self.stop = True
            for p in list(self.procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
    def left(self): return max(1, self.deadline - time.time())
    # ---- compilation ----
    def bc(self, src, defs, out):
        rc, o = self.sh(['clang++'] + BCFLAGS + ['-D%s=%s' % kv for kv in sorted(defs.items())] + [src, '-o', out], timeout=self.left())
        if rc != 0: raise RuntimeError('cannot compile %s to bitcode:\n%s' % (src, o[-3000:]))
    def native_lib(self, mode='asan'):
        with self.nat_lock:
            if mode in self.nat_ready: return self.nat_ready[mode]
            d = self.w + '/nat_' + mode; os.makedirs(d, exist_ok=True)
            srcs = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
            def one(f):
                return self.sh(['clang++'] + NATFLAGS + SANFLAGS[mode] + ['-c', REPO + '/src/' + f, '-o', d + '/' + f[:-4] + '.o'], timeout=self.left())
            with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(one, srcs))
            self.nat_ready[mode] = all(r[0] == 0 for r in rs); self.nat_err = '\n'.join(r[1] for r in rs if r[0] != 0)[-2000:]
            return self.nat_ready[mode]
    def native_bin(self, j, mode='asan'):
        key = (mode, j['harness'], j['entry'], tuple(sorted(j['defs'].items())))
        if not self.native_lib(mode): raise RuntimeError('native build of the library failed:\n' + self.nat_err)
        with self.nat_lock:
            if key in self.natbin: return self.natbin[key]
            exe = '%s/rep_%d' % (self.w, len(self.natbin)); self.natbin[key] = exe
            d = self.w + '/nat_' + mode
            objs = [d + '/' + f for f in sorted(os.listdir(d)) if f.endswith('.o')]
            fl = ['-D%s=%s' % kv for kv in sorted(j['defs'].items())] + ['-DHARNESS_ENTRY=' + j['entry']]
            src = [H + '/' + j['harness'] + '.cpp', H + '/native_rt.cpp']
            if mode == 'sched':
                rc, o = self.sh(['clang++'] + NATFLAGS + ['-O0', '-c', H + '/native_sched.cpp', '-o', exe + '_s.o'], timeout=self.left())
                if rc != 0: raise RuntimeError('native scheduler does not build:\n' + o[-2000:])
                objs2 = []
                for s in src:
                    oo = '%s_%s.o' % (exe, os.path.basename(s)[:-4]); objs2.append(oo)
                    rc, o = self.sh(['clang++'] + NATFLAGS + SANFLAGS[mode] + fl + ['-DSYM_NATIVE_SCHED', '-c', s, '-o', oo], timeout=self.left())
                    if rc != 0: raise RuntimeError('native build of harness %s failed:\n%s' % (j['harness'], o[-3000:]))
                rc, o = self.sh(['clang++'] + objs2 + [exe + '_s.o'] + objs + ['-o', exe] + NATLIBS, timeout=self.left())
            else:
                rc, o = self.sh(['clang++'] + NATFLAGS + SANFLAGS[mode] + fl + src + objs + ['-o', exe] + NATLIBS, timeout=self.left())
            if rc != 0: self.natbin.pop(key); raise RuntimeError('native build of harness %s failed:\n%s' % (j['harness'], o[-3000:]))
            return exe
    def replay(self, j, v, tag, sample=False):
        """run one set of inputs natively; returns (verdict, text, file): 'fail', 'ok', 'skip'.
        With threads, a candidate is confirmed by ThreadSanitizer (data races) or under a controlled scheduler (everything else)."""
        f = '%s/%s.inputs' % (self.w, tag)
        with open(f, 'w') as o:
            for n, wd, val in v['inputs']: o.write('%s %d %s\n' % (n, wd, val))
            if v.get('schedule'): o.write('#schedule %d %s\n' % (len(v['schedule']), ' '.join(map(str, v['schedule']))))
        if v['kind'] == 'race':
            for k in range(12):
                r = self.native_run(j, v, tag, f, 'tsan')
                if r[0] in ('fail', 'skip'): return r
            return r
        r = self.native_run(j, v, tag, f, 'asan')
        if r[0] != 'ok' or sample or not j.get('threads'): return r
        t = time.time()
        for k in range(400):
            r = self.native_run(j, v, tag, f, 'sched', k + 1)
            if r[0] != 'ok' or time.time() - t > 90: break
        return r
    def native_run(self, j, v, tag, f, mode, seed=0):
        exe = self.native_bin(j, mode)
        sc = '%s/sc_%s' % (self.w, tag); os.makedirs(sc, exist_ok=True)
        env = dict(os.environ, SYM_REPLAY=f, SYM_SCRATCH=sc, SYM_SEED=str(seed), TSAN_OPTIONS='exitcode=66:halt_on_error=1:suppressions=' + H + '/tsan.supp', MALLOC_PERTURB_='165',
                   ASAN_OPTIONS='detect_leaks=0:exitcode=99:max_malloc_fill_size=268435456:malloc_fill_byte=190:free_fill_byte=221:max_free_fill_size=4096:redzone=512:max_redzone=2048:detect_stack_use_after_return=1:quarantine_size_mb=64:allocator_may_return_null=1')
        rc, out = self.sh([exe], timeout=min(60, self.left()), env=env, cwd=sc)
        shutil.rmtree(sc, ignore_errors=True)
        tail = out[-4000:]
        if rc is None: return ('fail' if v['kind'] in ('nontermination', 'deadlock') else 'hang', 'did not terminate within 60 s\n' + tail, f)
        if rc == 0: return ('ok', tail, f)
        if rc == 77: return ('skip', tail, f)
        if self.stop: return ('skip', tail, f)
        return ('fail', tail, f)
    # ---- jobs ----
    def symex(self, j):
        out = '%s/%s.json' % (self.w, j['id'])
        t = min(j['time'], self.left())
        cmd = [SYMEX, '-entry', j['entry'], '-o', out, '-max-time', str(int(t))] + j['opts'] + j['bcs']
        rc, o = self.sh(cmd, timeout=min(t + 120, self.left()), memkb=j.get('memkb', MEMKB))
        if rc != 0 or not os.path.exists(out):
            return {'error': 'engine ended with %s: %s' % ('a timeout' if rc is None else rc, o[-1500:])}
        with open(out) as f: r = json.load(f)
        r['stderr'] = o[-2000:]
        return r

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    build_engine()
    R = Run(a.prop, a.tier, a.only, a.keep, a.v)
    try: rc = check(R)
    except KeyboardInterrupt: R.killall(); rc = 3
    finally:
        R.killall()
        if not a.keep: shutil.rmtree(R.w, ignore_errors=True)
        else: log('kept', R.w)
    sys.stdout.flush(); os._exit(rc)

def check(R):
    prop = R.prop; P = specs.PROPS[prop]; known = load_known(prop)
    jobs = []
    for n, j in enumerate(P['jobs']):
        if j['tier'] == 'thorough' and R.tier != 'thorough': continue
        if j['tier'] == 'quickonly' and R.tier != 'quick': continue
        if R.only and j['entry'] != R.only: continue
        j = dict(j); j['id'] = '%s_%02d' % (j['entry'], n)
        if R.tier == 'thorough': j['time'] = max(j['time'], 3600)
        jobs.append(j)
    # bitcode, every distinct (source, definitions) once
    units = {}
    for j in jobs:
        j['units'] = [(H + '/' + j['harness'] + '.cpp', tuple(sorted(j['defs'].items()))), (H + '/rt.cpp', ()), (H + '/logstub.cpp', ())]
        j['units'] += [(REPO + '/src/' + t + '.cpp', ()) for t in j['tus']]
        j['units'] += [(H + '/' + x + '.cpp', ()) for x in j.get('models', [])]
        for u in j['units']: units.setdefault(u, '%s/u%d_%s.bc' % (R.w, len(units), os.path.basename(u[0])[:-4]))
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(R.bc, u[0], dict(u[1]), p) for u, p in units.items()]: f.result()
    except RuntimeError as e:
        log('ERROR: %s' % e); return 2
    t_bc = time.time() - R.t0
    for j in jobs: j['bcs'] = [units[u] for u in j['units']]
    results = {}; confirmed = []; unconfirmed = []; knownhit = {}; rlock = threading.Lock()
    validated = [0]; valskip = [0]
    natthread = threading.Thread(target=R.native_lib); 
    def runjob(j):
        if R.stop: return
        r = R.symex(j)
        with rlock: results[j['id']] = r
        if R.stop: return
        if R.verbose: log('  ', j['id'], {k: r.get(k) for k in ('paths', 'queries', 'smt_queries', 'solver_s', 'max_query_s', 'exec_s', 'incomplete', 'error')})
        for k, v in enumerate(r.get('violations', [])):
            if R.stop: return
            kf = next((x for x in known if x['entry'] == j['entry'] and re.search(x['match'], '%s|%s|%s' % (v['kind'], v['label'], v['where']))), None)
            try: verdict, text, f = R.replay(j, v, '%s_v%d' % (j['id'], k))
            except RuntimeError as e:
                with rlock: unconfirmed.append((j, v, str(e)))
                continue
            if R.stop: return
            if verdict == 'fail':
                if kf:
                    with rlock: knownhit[kf['id']] = kf
                    continue
                keep = '%s/evidence/replay/%s' % (VERIF, prop); os.makedirs(keep, exist_ok=True)
                dst = '%s/%s.txt' % (keep, j['id'])
                with rlock:
                    if confirmed: return
                    with open(dst, 'w') as o:
                        o.write('# property %s, harness %s entry %s defs %s\n# %s: %s\n# at %s\n' % (prop, j['harness'], j['entry'], j['defs'], v['kind'], v['label'], v['where']))
                        o.write('# replay: %s/checks/replay.sh %s %s %s\n' % (VERIF, j['harness'], j['entry'], dst) )
                        o.write(open(f).read()); o.write('\n# native output:\n' + ''.join('# ' + l + '\n' for l in text.splitlines()))
                    confirmed.append((j, v, dst, text))
                R.killall(); return
            else:
                with rlock: unconfirmed.append((j, v, verdict + ': ' + text))
        if j['samples'] and not R.stop:
            ss = r.get('samples', [])
            if R.tier == 'quick': ss = ss[-j['samples']:]
            for k, v in enumerate(ss):
                if R.stop: return
                try: verdict, text, f = R.replay(j, v, '%s_s%d' % (j['id'], k), True)
                except RuntimeError as e:
                    with rlock: unconfirmed.append((j, v, str(e)))
                    continue
                if R.stop: return
                with rlock:
                    if verdict == 'ok': validated[0] += 1
                    elif verdict == 'skip': valskip[0] += 1; unconfirmed.append((j, v, 'sample not accepted natively: ' + text))
                    else: unconfirmed.append((j, v, 'native run of a path the engine completed failed: ' + text))
    natthread.start()
    order = sorted(jobs, key=lambda j: -j['weight'])
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(runjob, order))
    natthread.join()
    # a native failure of a path the engine passed is a failure of the real code under the harness
    inconclusive = []
    for j in jobs:
        r = results.get(j['id'])
        if confirmed: break
        if r is None: inconclusive.append('%s: not run' % j['id']); continue
        if 'error' in r: inconclusive.append('%s: %s' % (j['id'], r['error'])); continue
        for k, c in r['incomplete'].items():
            if 'bound:' in k: continue
            if any(re.search(x, k) for x in j['allow']): continue
            inconclusive.append('%s: %s (%d times)' % (j['id'], k, c))
        if not r['violations']:
            for lab in j['reach']:
                if not r['reached'].get(lab): inconclusive.append('%s: vacuous, "%s" never reached' % (j['id'], lab))
    for j, v, why in unconfirmed: inconclusive.append('%s: candidate %s "%s" at %s with %s not confirmed natively: %s' % (j['id'], v['kind'], v['label'], v['where'][:300], [(x[0], x[2]) for x in v['inputs']][:40], why[-1200:]))
    write_evidence(R, P, jobs, results, validated[0], len(confirmed), inconclusive, t_bc, knownhit)
    for kid, kf in sorted(knownhit.items()): log('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    log('%s [%s]: %d jobs, %d paths, %d queries (%d to Z3), solver %.1f s, %d native replays agree, wall %.1f s' % (prop, R.tier, len(jobs), tot('paths'), tot('queries'), tot('smt_queries'), tot('solver_s'), validated[0], time.time() - R.t0))
    if confirmed:
        j, v, dst, text = confirmed[0]
        log('%s: %s at %s' % (v['kind'], v['label'], v['where'])); log('  inputs: %s' % ' '.join('%s=%s' % (x[0], x[2]) for x in v['inputs'])); log('  native: ' + ' | '.join(text.strip().splitlines()[:3])[:600])
        log('VIOLATION property=%s replay=%s' % (prop, dst)); return 1
    if inconclusive:
        for x in inconclusive: log('INCONCLUSIVE ' + x)
        return 2
    return 0

def load_known(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == prop]

def write_evidence(R, P, jobs, results, validated, nviol, inconclusive, t_bc, knownhit):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tot = lambda k: sum(r.get(k, 0) for r in results.values() if isinstance(r, dict))
    fns = set(); js = []; samples = []
    for j in jobs:
        r = results.get(j['id'], {}); fns.update(r.get('functions', []))
        js.append({'harness': j['harness'] + '.cpp:' + j['entry'], 'defines': j['defs'], 'translation_units': j['tus'], 'bounds': j['bounds'], 'engine_options': j['opts'],
                   'paths': r.get('paths', 0), 'completed_paths': r.get('completed', 0), 'queries': r.get('queries', 0), 'smt_queries': r.get('smt_queries', 0), 'sat': r.get('sat', 0), 'unsat': r.get('unsat', 0), 'unknown': r.get('unknown', 0),
                   'solver_s': round(r.get('solver_s', 0), 2), 'max_query_s': round(r.get('max_query_s', 0), 2), 'functions_encoded': len(r.get('functions', [])), 'asserts': {k[7:]: c for k, c in r.get('reached', {}).items() if k.startswith('assert:')}, 'cut': r.get('incomplete', {}), 'error': r.get('error')})
        for s in r.get('samples', [])[-1:]:
            if len(samples) < 6: samples.append({'harness': j['entry'], 'inputs': ['%s=%s' % (x[0], x[2]) for x in s['inputs']][:60]})
    ev = {'property': R.prop, 'tier': R.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot('paths') + tot('forks'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated, 'samples': samples or ['no completed path'],
                       'queries': tot('queries'), 'smt_queries': tot('smt_queries'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2),
                       'assertions_decided': tot('asserts_checked'), 'memory_accesses_checked': tot('mem_checks'), 'functions_encoded': sorted(fns), 'jobs': js, 'bitcode_s': round(t_bc, 1),
                       'inconclusive': [x[:500] for x in inconclusive], 'known_findings_hit': sorted(knownhit)},
          'assumptions': specs.COMMON_ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - R.t0, 2), 'violations': nviol}
    tmp = '%s/evidence/.%s.tmp' % (VERIF, R.prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (VERIF, R.prop))

if __name__ == '__main__': main()
