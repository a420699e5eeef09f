#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]      build the property's generators from /repo's working tree and run them
   run.py PROPERTY --replay FILE         re-run one saved case
Exit 0: property held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': it did not."""
import os, sys, json, time, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, V)
from props import PROPS
sys.path.insert(0, os.path.join(V, 'port'))
sys.dont_write_bytecode = True

BASE = ['-std=c++17', '-O1', '-U__OPTIMIZE__', '-g1', '-w', '-pthread', '-fno-strict-aliasing', '-fms-extensions', '-fms-compatibility',
        '-fms-compatibility-version=19', '-fdelayed-template-parsing', '-D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1', '-ferror-limit=10', '-ftemplate-backtrace-limit=3'] + \
       ['-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t for t in 'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()]
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

def prepare(pdir):
    port = os.path.join(pdir, 'port')
    shutil.rmtree(port, ignore_errors=True)
    import mkport
    mkport.main(REPO, port)
    d = os.path.join(port, '_extern/agner.org/AF_randomc_h'); os.makedirs(d)
    shutil.copy(os.path.join(V, 'port/include/AF_random.h'), os.path.join(d, 'random.h'))
    src = os.path.join(port, 'nntl/interface/rng/afrand_mt_thr.h')
    if os.path.exists(src): shutil.copy(src, os.path.join(port, 'nntl/interface/rng/AFRAND_MT_THR.h'))
    d = os.path.join(port, '_extern/rapidjson/include'); os.makedirs(d)
    os.symlink('/usr/include/rapidjson', os.path.join(d, 'rapidjson'))
    import mkthr
    mkthr.main(port)
    return port

def prepare_sched(port, dst):
    """copy of the ported tree whose threading layer uses the controlled-scheduling stand-ins of h/vps.h (a token substitution)"""
    import re
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(port, dst, symlinks=True)
    base = os.path.join(dst, 'nntl/interface'); files = [os.path.join(base, f) for f in ('_i_threads.h', '_i_bgworkers.h')]
    td = os.path.join(base, 'threads'); files += [os.path.join(td, f) for f in os.listdir(td)]
    names = r'(?:::)?std::(thread|mutex|shared_mutex|recursive_mutex|condition_variable_any|condition_variable|atomic_ptrdiff_t|atomic_bool|atomic_int|atomic_uint|atomic_size_t|atomic_long|atomic(?=\s*<)|this_thread)\b(?!_)'
    for f in files:
        if not os.path.isfile(f): continue
        s = open(f, encoding='latin-1').read()
        s = re.sub(r'(?<![\w:])' + names, r'::vps::\1', s); s = re.sub(r'(?:::)?std::chrono::(?:steady|high_resolution|system)_clock\b', '::vps::steady_clock', s)
        open(f, 'w', encoding='latin-1').write(s)

def build(pid, cfg, pdir):
    port = prepare(pdir)
    inc0 = ['-I' + os.path.join(V, 'h'), '-I' + os.path.join(V, 'port/include')]
    if any('-DVP_SCHED=1' in t[1] for t in cfg['tus']): prepare_sched(port, port + '_s')
    def one(t):
        src, defs = t[0], list(t[1])
        san = cfg.get('san', True) if len(t) < 3 else t[2]
        tag = os.path.basename(src)[:-4] + ''.join('_' + d.replace('-D', '').replace('=', '').replace('/', '') for d in defs)
        o = os.path.join(pdir, tag + '.o')
        if os.path.exists(o): os.remove(o)
        inc = inc0 + ['-I' + (port + '_s' if '-DVP_SCHED=1' in defs else port)]
        cmd = [CXX] + BASE + cfg.get('flags', []) + (SAN if san else []) + defs + inc + ['-c', os.path.join(V, 'h', src), '-o', o]
        t0 = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        open(os.path.join(pdir, tag + '.log'), 'wb').write(r.stdout)
        if r.returncode:
            errs = [l[:240] for l in r.stdout.decode('latin-1').splitlines() if 'error:' in l][:4]
            return (tag, None, errs, time.time() - t0)
        return (tag, o, [], time.time() - t0)
    tus = [('main.cpp', [])] + [t for t in cfg['tus'] if not os.environ.get('VP_TU') or os.environ['VP_TU'] in t[0] + ' '.join(t[1]) + ' ']
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, tus))
    notbuilt = [(t, e) for t, o, e, _ in res if o is None]
    for t, e in notbuilt:
        print('NOT BUILT: %s' % t)
        for l in e: print('   ', l)
    if os.environ.get('VP_TIMES'):
        for t, o, e, s in res: print('  compile %-40s %.1f s' % (t, s))
    objs = [o for t, o, e, _ in res if o]
    if len(objs) < 2: return None, notbuilt
    exe = os.path.join(pdir, 'check')
    r = subprocess.run([CXX, '-pthread'] + (SAN if cfg.get('san', True) else []) + objs + ['-o', exe] + cfg.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print('LINK FAILED:', r.stdout.decode('latin-1')[-1500:]); return None, notbuilt
    return exe, notbuilt

def known_for(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]

def main():
    pid = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pdir = os.path.join(BUILD, pid); os.makedirs(pdir, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(pdir, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    exe, notbuilt = build(pid, cfg, pdir)
    if exe is None:
        print('ERROR: nothing could be built for', pid); return 2
    tb = time.time() - t0
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
    scratch = os.path.join(pdir, 'scratch'); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch); env['VP_SCRATCH'] = scratch
    if arg == '--replay':
        return subprocess.run([exe, '--replay', sys.argv[3]], env=env).returncode
    tier = arg if arg in ('quick', 'thorough') else 'quick'
    budget = cfg.get('quick_s', 25) if tier == 'quick' else cfg.get('thorough_s', 420)
    if os.environ.get('VP_BUDGET'): budget = float(os.environ['VP_BUDGET'])
    stats = os.path.join(pdir, 'stats.json')
    if os.path.exists(stats): os.remove(stats)
    rdir = os.path.join(V, 'replays', pid); os.makedirs(rdir, exist_ok=True)
    cmd = [exe, '--seed', str(seed), '--budget', str(budget), '--hard', str(budget * 3 + 60 if tier == 'quick' else budget + 120), '--stats', stats, '--replays', rdir, '--workers', str(cfg.get('workers', 8))]
    if tier == 'thorough': cmd.append('--thorough')
    kn = known_for(pid)
    for k in kn: cmd += ['--known', k['key']]
    if os.environ.get('VP_ONLY'): cmd += ['--only', os.environ['VP_ONLY']]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode('latin-1')
    sys.stdout.write(out)
    shutil.rmtree(scratch, ignore_errors=True)
    st = json.load(open(stats)) if os.path.exists(stats) else None
    if st is None:
        print('ERROR: no statistics from the harness (exit %d)' % r.returncode); return 2
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    samples = [dict(check=n, case=s) for n, d in st['subchecks'].items() for s in d['samples'][:2]]
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=st['evaluations'], distinct_nontrivial=st['distinct_nontrivial'], rule=cfg['rule'], samples=samples[:60],
                            subchecks={n: dict(cases=d['cases'], nontrivial=d['nontrivial'], distinct_nontrivial=d['distinct_nontrivial'], labels=d['labels']) for n, d in st['subchecks'].items()},
                            build_s=round(tb, 1), not_built=[t for t, _ in notbuilt], unreproduced=st['unreproduced']),
              assumptions=cfg.get('assumptions', []), violations=[st['violation']] if st['violation'] else [])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    if r.returncode == 1 and st['violation']:
        print('VIOLATION property=%s replay=%s' % (pid, st['violation'])); return 1
    if r.returncode != 0: return 2
    print('OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d build=%.0fs total=%.0fs' % (pid, tier, seed, st['evaluations'], st['distinct_nontrivial'], tb, time.time() - t0))
    return 0
if __name__ == '__main__':
    sys.exit(main())
