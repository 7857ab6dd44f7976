#!/usr/bin/env python3
"""dev.py 'harness:entry:DEF=1 DEF2:opts:TU TU' ... — compile and run entries under the engine, in parallel (development aid)"""
import sys, os, subprocess, json, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
R = os.environ.get('SYM_REPO', '/repo'); W = '/tmp/w'; os.makedirs(W, exist_ok=True)
CC = ['clang++', '-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-ffp-contract=off', '-emit-llvm', '-c', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DREQUIRE_IOSTREAM', '-Wno-invalid-offsetof', '-w', '-DIMATH_HALF_NO_LOOKUP_TABLE', '-DSYM_ENGINE', '-I' + V + '/harness', '-I' + V + '/harness/shim', '-I' + R + '/src', '-I' + R + '/export', '-I' + R + '/include', '-I/opt/vp/compat/include', '-I/usr/include/Imath', '-I/usr/include/hdf5/serial']
import threading
locks = {}; gl = threading.Lock()
def cc(src, defs=()):
    key = hashlib.md5((src + ' '.join(defs) + R).encode()).hexdigest()[:8]; out = '%s/%s_%s.bc' % (W, os.path.basename(src)[:-4], key)
    with gl: l = locks.setdefault(out, threading.Lock())
    with l:
        dep = out + '.d'
        if os.path.exists(out) and os.path.exists(dep):
            t = os.path.getmtime(out); fs = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
            if all(os.path.exists(f) and os.path.getmtime(f) <= t for f in fs): return out, ''
        p = subprocess.run(CC + ['-MMD', '-MF', dep] + ['-D' + d for d in defs] + [src, '-o', out], capture_output=True, text=True)
        if p.returncode: return None, '\n'.join(x for x in p.stderr.split('\n') if 'error' in x)[:500]
        return out, ''
DEFTU = 'Field FieldMetadata FieldMapping SparseFile FieldInterp'.split()
def one(spec):
    f = (spec.split(':') + [''] * 5)[:5]; h, e, defs, opts, tus = f[0], f[1], f[2].split(), f[3].split(), f[4].split()
    bcs = []
    for s, d in [(V + '/harness/%s.cpp' % h, defs)] + [(V + '/harness/%s.cpp' % x, []) for x in ('rt', 'logstub')] + [('%s/src/%s.cpp' % (R, t), []) for t in (tus or DEFTU)]:
        o, err = cc(s, d)
        if not o: return '%s\n  COMPILE %s\n%s' % (spec, s, err)
        bcs.append(o)
    oj = W + '/' + hashlib.md5(spec.encode()).hexdigest()[:8] + '.json'
    if os.path.exists(oj): os.unlink(oj)
    mt = os.environ.get('MT', '150')
    try: p = subprocess.run(['bash', '-c', 'ulimit -v %s; exec "$@"' % os.environ.get('MEM', '9000000'), 'x', V + '/build/symex', '-v', '-max-time', mt, '-entry', e, '-o', oj] + opts + bcs, capture_output=True, text=True, timeout=int(mt) + 60)
    except subprocess.TimeoutExpired: return spec + '\n  TIMEOUT'
    log = (p.stdout + p.stderr).split('\n')
    open(oj + '.log', 'w').write('\n'.join(log))
    if not os.path.exists(oj): return spec + '\n  no output\n' + '\n'.join(log[-8:])
    d = json.load(open(oj)); out = [spec + '   [%s]' % oj]
    n = int(os.environ.get('N', '3'))
    out += ['  ' + x[:300] for x in [l for l in log if l.startswith('fork')][:n]] + ['  ' + x[:600] for x in log if x.startswith('[dbg]')][:20]
    out.append('  paths %d forks %d instr %d q %d smt %d unk %d solver %.1f max %.2f load %.1f exec %.1f fns %d' % (d['paths'], d['forks'], d['instructions'], d['queries'], d['smt_queries'], d['unknown'], d['solver_s'], d['max_query_s'], d['load_s'], d['exec_s'], len(d['functions'])))
    if d['incomplete']: out.append('  INCOMPLETE ' + json.dumps(d['incomplete'])[:500])
    out.append('  reached ' + ', '.join('%s=%s' % (k, v) for k, v in d['reached'].items())[:900])
    for v in d['violations'][:6]: out.append('  VIOL %s | %s | %s | %s' % (v['kind'], v['label'], v['where'][:500], ' '.join('%s=%s' % (a, c) for a, b, c in v['inputs'])[:500]))
    return '\n'.join(out)
if __name__ == '__main__':
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, sys.argv[1:]): print(r, flush=True)
