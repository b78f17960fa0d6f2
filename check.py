#!/usr/bin/env python3
"""Driver: builds bitcode of the current /repo tree + harnesses, runs symx, replays
counterexamples natively against the real code, writes evidence.
  check.py run <PROPERTY> [quick|thorough]      exit 0 held / 1 violation
  check.py replay <replay file>
  check.py setup
"""
import tempfile, threading, sys, os, json, subprocess, hashlib, glob, time, re, shutil, fnmatch
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
OUT = os.environ.get('VERIF_OUT', os.path.join(V, 'out'))
NCPU = os.cpu_count() or 8
sys.path.insert(0, os.path.join(V, 'harness'))
MPIINC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
DEFS = ['-DOMPI_SKIP_MPICXX=1', '-Desint=int', '-D__ESMODE__=RELEASE', '-DHAVE_BLAS=1', '-DHAVE_LAPACK=1', '-DHAVE_METIS=1', '-DHAVE_PARMETIS=1', '-DHAVE_MKL=1', '-DMKL_INT=int',
        '-DMKL_Complex8=std::complex<float>', '-DMKL_Complex16=std::complex<double>', '-DHAVE_PTHREAD=1', '-DHAVE_SUITESPARSE=1',
        '-DESPRESO_USE_WRAPPER_DNBLAS_MKL=1', '-DESPRESO_USE_WRAPPER_DNSOLVER_MKL=1', '-DESPRESO_USE_WRAPPER_LAPACK_MKL=1',
        '-DESPRESO_USE_WRAPPER_SPBLAS_MKL=1', '-DESPRESO_USE_WRAPPER_SPSOLVER_MKL=1', '-DESPRESO_USE_WRAPPER_SCSOLVER_MKL=1']
INC = ['-I' + V + '/runtime/include', '-I' + V + '/runtime', '-I' + V + '/harness', '-I' + REPO + '/src'] + MPIINC + ['-I/usr/include/mkl', '-I/usr/include/suitesparse']
BCFLAGS = ['-std=c++17', '-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names', '-fno-pic', '-w', '-fdebug-compilation-dir=.', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSYMX=1', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-ffunction-sections', '-fdata-sections', '-w', '-c']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(p, cache={}):
    st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
    if k not in cache: cache[k] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return cache[k]

def compile_one(src, native, extra):
    isc = src.endswith('.c')
    cc = (['gcc'] if isc else ['g++']) if native else (['clang-18'] if isc else ['clang++-18'])
    flags = list(NATFLAGS if native else BCFLAGS)
    if isc: flags = [f for f in flags if f != '-std=c++17'] + ['-fno-builtin']
    flags += ([] if native else ['-I' + V + '/runtime/symstd']) + DEFS + INC + [x[3:] for x in extra if x.startswith("bc:") and not native] + [x for x in extra if not x.startswith("bc:")]
    key = hashlib.sha1((' '.join(cc + flags) + src).encode()).hexdigest()[:20]
    d = os.path.join(B, 'nat' if native else 'bc'); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, key + ('.o' if native else '.bc')); dep = o + '.d'; hs = o + '.hash'
    if os.path.exists(o) and os.path.exists(hs):
        try:
            saved = json.load(open(hs))
            if all(os.path.exists(p) and fhash(p) == h for p, h in saved.items()): return o, None
        except Exception: pass
    r = sh(cc + flags + ['-MD', '-MF', dep, '-o', o, src])
    if r.returncode: return None, '%s\n%s' % (src, r.stdout[-3000:])
    deps = [x for x in re.sub(r'\\\n', ' ', open(dep).read()).split(':', 1)[1].split()]
    deps = [x for x in deps if x.startswith(REPO) or x.startswith(V)]
    json.dump({p: fhash(p) for p in deps}, open(hs, 'w'))
    return o, None

def repo_sources(job):
    out = []
    for g in job.get('repo', []):
        m = sorted(glob.glob(os.path.join(REPO, 'src', g)))
        out += [x for x in m if x.endswith('.cpp')]
    ex = job.get('exclude', [])
    out = [x for x in dict.fromkeys(out) if not any(fnmatch.fnmatch(os.path.relpath(x, REPO + '/src'), e) for e in ex)]
    return out

def rt_sources(job, native):
    r = [V + '/runtime/rt_es.cpp'] if job.get('eslog', True) else []
    if native: r += [V + '/runtime/native.cpp']
    else: r += [V + '/runtime/rt_std.cpp', V + '/runtime/rt_c.c', V + '/runtime/vfs.cpp']
    ms = list(job.get('models', []))
    if job.get('mpi') or job.get('mpilib'): ms.append('sym:mpi.cpp')
    for m in ms:
        if m.startswith('native:'):
            if native: r.append(V + '/runtime/' + m[7:])
        elif m.startswith('sym:'):
            if not native: r.append(V + '/runtime/' + m[4:])
        else: r.append(V + '/runtime/' + m)
    return r

def mpi_flags(j): return ('-DSYM_MPI=1',) + (() if j.get('mpi') or j.get('mpiinit') else ('-DSYM_MPI_LIB=1',)) if j.get('mpi') or j.get('mpilib') else ()

def build_engine():
    r = sh(['make', '-s', '-j4', '-C', V + '/engine', 'B=' + B + '/engine'])
    if r.returncode: print(r.stdout); raise SystemExit(2)

def build_all(jobs, want_native=True):
    """compiles everything needed by the jobs in one pool; returns (bc, nat) maps"""
    todo = {}
    for j in jobs:
        ex = tuple(j.get('flags', []))
        srcs = [V + '/harness/' + j['src']] + repo_sources(j)
        for s in srcs + rt_sources(j, False): todo[(s, False, ex)] = None
        if want_native and j.get('native', True):
            nex = ex + mpi_flags(j)
            for s in srcs + rt_sources(j, True): todo[(s, True, nex)] = None
    errs = []
    with ThreadPoolExecutor(NCPU) as ex:
        # large files first
        keys = sorted(todo, key=lambda k: -os.path.getsize(k[0]))
        fut = {k: ex.submit(compile_one, *k) for k in keys}
        for k, f in fut.items():
            todo[k], e = f.result()
            if e: errs.append((k, e))
    fatal = [e for (k, e) in errs if not k[1]]
    if fatal:
        print('BUILD ERROR (bitcode)\n' + '\n'.join(fatal)[:6000]); raise SystemExit(2)
    if errs: print('note: native replay build problem:\n' + errs[0][1][:1500])
    return todo

def link_job(j, objs):
    ex = tuple(j.get('flags', []))
    srcs = [V + '/harness/' + j['src']] + repo_sources(j) + rt_sources(j, False)
    bcs = [objs[(s, False, ex)] for s in srcs]
    d = os.path.join(B, 'link'); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, j['id'] + '.bc')
    over = [objs[(V + '/runtime/' + m, False, ex)] for m in j.get('override', [])]
    r = sh(['llvm-link-18', '-o', o + '.tmp'] + bcs)
    if r.returncode: print('LINK ERROR', r.stdout[-3000:]); raise SystemExit(2)
    r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + j.get('entry', 'harness'), o + '.tmp', '-o', o])
    if r.returncode: print('OPT ERROR', r.stdout[-3000:]); raise SystemExit(2)
    os.remove(o + '.tmp')
    return o

def link_native(j, objs):
    ex = tuple(j.get('flags', [])) + mpi_flags(j)
    srcs = [V + '/harness/' + j['src']] + repo_sources(j) + rt_sources(j, True)
    os_ = [objs.get((s, True, ex)) for s in srcs]
    if not all(os_): return None
    o = os.path.join(B, 'link', j['id'] + '.exe')
    libs = list(j.get('libs', []))
    if j.get('mpi') or j.get('mpilib'): libs += ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi', '-lmpi_cxx'] if os.path.exists('/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so') else ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi']
    r = sh(['g++', '-fsanitize=address', '-no-pie', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-o', o] + os_ + libs + ['-lm', '-lpthread', '-ldl'])
    if r.returncode: print('note: native link problem', r.stdout[-1500:]); return None
    return o

def native_run(j, exe, infile, obs, args, timeout=120):
    infile = os.path.abspath(infile)
    try: return native_run_(j, exe, infile, obs, args, timeout)
    finally:
        for d in TMPD.pop(threading.get_ident(), []): shutil.rmtree(d, ignore_errors=True)

TMPD = {}
def native_run_(j, exe, infile, obs, args, timeout):
    env = dict(os.environ, GLIBC_TUNABLES='glibc.malloc.perturb=85', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43:max_malloc_fill_size=1000000000:malloc_fill_byte=170:detect_stack_use_after_return=1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    env.update({'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_plm': 'isolated'})
    os.makedirs(os.path.join(B, 'scratch'), exist_ok=True); scratch = tempfile.mkdtemp(dir=os.path.join(B, 'scratch')); TMPD.setdefault(threading.get_ident(), []).append(scratch)
    cmd = [exe, infile, obs or '-'] + [str(a) for a in args]
    n = 1
    for _ in range(5):
        c = cmd if not (j.get('mpi') or j.get('mpiinit')) else ['mpirun', '--oversubscribe', '-n', str(n)] + cmd
        try: r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=scratch, timeout=timeout)
        except subprocess.TimeoutExpired: return 'timeout', ''
        m = re.search(r'NRANKS=(\d+)', r.stdout)
        if j.get('mpi') and m and n == 1: n = int(m.group(1)); continue
        if 'REPLAY-STARTED' not in r.stdout: time.sleep(1); continue   # mpirun itself failed
        break
    t = r.stdout
    if 'REPLAY-STARTED' not in t: return 'infrastructure', t
    if r.returncode in (-9, 137): return 'infrastructure', t
    if 'pc 0x000000000000' in t: return 'unresolved', t   # a function that is not part of the replayed sources
    if 'REPLAY-VIOLATION' in t: return 'violation', t
    if 'AddressSanitizer' in t: return 'violation', t
    if r.returncode in (10,) or 'REPLAY: rejected' in t: return 'rejected', t
    if r.returncode == 20 or 'REPLAY: assumption' in t: return 'assume', t
    if r.returncode != 0: return 'crash', t
    return 'ok', t

def run_case(j, case, tier, bc, exe, tokens, tmo, findings):
    cid = j['id'] + ('' if not case.get('name') else '_' + case['name'])
    od = os.path.join(OUT, cid); shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    traces = case.get('traces', j.get('traces', 1 if j.get('mpi') else 4))
    cmd = [B + '/engine/symx', bc, '-o', od, '-e', j.get('entry', 'harness'), '--time', str(tmo), '--tokens', str(tokens), '--traces', str(traces if exe else 0)]
    args = case.get('args', [])
    for a in args: cmd += ['-a', str(a)]
    if j.get('ranks') or case.get('ranks'): cmd += ['--ranks', str(case.get('ranks', j.get('ranks')))]
    if j.get('ieee'): cmd += ['--ieee']
    if j.get('sel'): cmd += ['--sel', str(j['sel'])]
    if j.get('ite') or case.get('ite'): cmd += ['--ite']
    cmd += ['--max-inst', str(case.get('max_inst', j.get('max_inst', 2000000000)))]
    if j.get('rlimit'): cmd += ['--rlimit', str(j['rlimit'])]
    for p in j.get('preload', []): cmd += ['--preload', p]
    t0 = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tmo + 40); eo = r.stdout
    except subprocess.TimeoutExpired as e: eo = 'engine timeout'
    subprocess.run(['pkill', '-9', '-f', 'symx .*-o %s ' % od], stdout=subprocess.DEVNULL)
    rep = {}
    try: rep = json.load(open(od + '/report.json'))
    except Exception as e: rep = {'error': 'no report: %s %s' % (e, eo[-800:]), 'violations': len(glob.glob(od + '/viol_*.txt'))}
    rep['case'] = cid; rep['args'] = args; rep['wall'] = round(time.time() - t0, 1)
    rep['confirmed'] = []; rep['unconfirmed'] = []; rep['known'] = []
    for vf in sorted(glob.glob(od + '/viol_*.txt')):
        head = open(vf).readline().strip('# \n')
        st, txt = native_run(j, exe, vf, None, args, timeout=j.get('replay_timeout', 60)) if exe else ('nonative', '')
        hang = st == 'timeout'
        if st in ('violation', 'crash') or (hang and ('termination' in head or 'deadlock' in head or j.get('mpi'))):
            m = re.search(r'REPLAY-VIOLATION: (.*)', txt); real = m.group(1) if m else (re.search(r'ERROR: AddressSanitizer: (.*)', txt).group(1)[:120] if 'ERROR: AddressSanitizer' in txt else st)
            info = {'what': head, 'native': st + ': ' + real, 'file': vf}
            kf = [f for f in findings if f.get('case', j['id']) == j['id'] and re.search(f['match'], head)]
            if kf: info['finding'] = kf[0]; rep['known'].append(info)
            else: rep['confirmed'].append(info)
        else: rep['unconfirmed'].append({'what': head, 'native': st, 'file': vf, 'out': txt[-300:]})
    # translator validation
    ok = bad = 0; rep['trace_mismatch'] = []
    for tf in sorted(glob.glob(od + '/trace_*.txt')) if exe else []:
        of = tf + '.obs'; st, txt = native_run(j, exe, tf, of, args)
        if st in ('assume',): continue
        want = [l.split() for l in open(tf) if l.startswith('!obs')]
        got = [l.split() for l in open(of) if l.startswith('!obs')] if os.path.exists(of) else []
        same = st == 'ok' and (j.get('mpi') or len(want) == len(got))
        if same and not j.get('mpi'):
            for a, b in zip(want, got):
                if a[:2] != b[:2]: same = False; break
                if a[2] == '?' : continue
                if a[2] != b[2]:
                    try:
                        x, y = float(a[2]), float(b[2])
                        if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)): same = False
                    except ValueError: same = False
        if same: ok += 1
        else: bad += 1; rep['trace_mismatch'].append({'file': tf, 'status': st, 'out': txt[-400:]})
        if st in ('violation', 'crash'):
            rep['confirmed'].append({'what': 'native run of an explored path fails', 'native': st + ': ' + txt[-200:], 'file': tf})
    rep['traces_ok'] = ok; rep['traces_bad'] = bad
    return rep

def load_findings(prop):
    p = V + '/known_findings.json'
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f.get('property') == prop and f.get('status') == 'open']

def do_run(prop, tier, only=None, tokens_arg=None):
    import config
    t0 = time.time()
    P = config.PROPS[prop]; jobs = []
    for j in P['jobs']:
        j = dict(j)
        if tier not in j.get('tiers', ('quick', 'thorough')): continue
        if only and j['name'] not in only: continue
        j['id'] = prop + '_' + j['name']; jobs.append(j)
    build_engine()
    objs = build_all(jobs)
    tb = time.time() - t0
    findings = load_findings(prop); work = []
    for j in jobs:
        bc = link_job(j, objs); exe = link_native(j, objs) if j.get('native', True) else None
        cases = j.get(tier) or j.get('quick') or [{}]
        for i, c in enumerate(cases):
            c = dict(c) if isinstance(c, dict) else {'args': c}
            if 'name' not in c and len(cases) > 1: c['name'] = str(i)
            work.append((j, c, bc, exe))
    total = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    deadline = t0 + total
    reps = []
    def one(w):
        j, c, bc, exe = w
        left = deadline - time.time()
        tmo = max(20, min(left, c.get('time', j.get('time', 600 if tier == 'quick' else 3000))))
        return run_case(j, c, tier, bc, exe, tok, tmo, findings)
    par = min(len(work), P.get('parallel', 4)) or 1; tok = max(1, -(-NCPU // par)) if not tokens_arg else tokens_arg
    with ThreadPoolExecutor(par) as ex: reps = list(ex.map(one, work))
    # ---- verdict
    S = lambda k: sum(r.get(k, 0) or 0 for r in reps)
    conf = [c for r in reps for c in r['confirmed']]; known = [c for r in reps for c in r['known']]
    incomplete = [r['case'] for r in reps if r.get('error') or r.get('truncated') or r.get('timeouts') or r.get('unsupported') or r.get('crashed') or r['unconfirmed'] or r['traces_bad']]
    reach_missing = []
    for (j, c, bc, exe), r in zip(work, reps):
        for lab in c.get('reach', j.get('reach', ['end'])):
            if not r.get('reach', {}).get(lab): reach_missing.append(r['case'] + ':' + lab)
    funcs = sorted(set(f for r in reps for f in r.get('functions', [])))
    lines = []
    os.makedirs(OUT + '/replay', exist_ok=True)
    for k in known[:20]: lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['finding']['what']))
    lines = list(dict.fromkeys(lines))
    for (j, c, bc, exe), r in zip(work, reps):
        for i, k in enumerate(r['confirmed'][:2]):
            rp = os.path.join(OUT, 'replay', r['case'] + '_%d.txt' % i)
            with open(rp, 'w') as f:
                f.write('#! property=%s job=%s args=%s\n#! run: python3 %s/check.py replay %s\n# native result: %s\n' % (prop, j['name'], ','.join(map(str, r['args'])), V, rp, k['native'].replace('\n', ' ')))
                f.write(open(k['file']).read())
            lines.append('VIOLATION property=%s replay=%s  [%s | %s]' % (prop, rp, k['what'], k['native'].replace('\n', ' ')[:160]))
    exhaustive = not incomplete and not reach_missing
    samples = []
    for r in reps:
        for tf in sorted(glob.glob(os.path.join(OUT, r['case'], 'trace_*.txt')))[:2]:
            t = [l.strip() for l in open(tf, errors='replace') if l.strip() and not l.endswith('.obs')]
            samples.append({'case': r['case'], 'args': r['args'], 'inputs_and_observations': t[:40]})
    if not samples: samples = [{'case': r['case'], 'args': r['args'], 'inputs_and_observations': ['no observable trace recorded; paths completed: %s' % r.get('paths')]} for r in reps[:3]]
    samples.sort(key=lambda x: len(x['inputs_and_observations']) == 0)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': P.get('level', 'model_checking'),
          'coverage': {'states': max(1, S('paths') + S('rejected') + S('assumed_away')), 'transitions': max(1, S('instructions')), 'traces_validated_against_impl': S('traces_ok'),
                       'samples': samples[:12], 'functions_encoded': funcs[:400], 'functions_encoded_count': len(funcs),
                       'bounds': P.get('bounds', ''), 'outside_bounds': P.get('outside', ''), 'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'),
                       'solver': 'z3 4.8.12', 'solver_s': round(S('solver_s'), 2), 'assertions_checked': S('asserts'), 'assertions_decided_by_solver': S('asserts_solver'), 'paths_completed': S('paths'), 'paths_rejected_by_code': S('rejected'),
                       'exhaustive_within_bounds': exhaustive, 'incomplete_cases': incomplete, 'unreached_labels': reach_missing, 'build_s': round(tb, 1),
                       'cases': [{k: r.get(k) for k in ('case', 'args', 'paths', 'rejected', 'forks', 'queries', 'solver_s', 'asserts', 'asserts_solver', 'instructions', 'truncated', 'unsupported', 'unknown', 'timeouts', 'crashed', 'violations', 'traces_ok', 'traces_bad', 'wall', 'reach', 'error')} for r in reps],
                       'notes': sorted(set(n[:300] for r in reps for n in r.get('notes', [])))[:30],
                       'unconfirmed_counterexamples': [u for r in reps for u in r['unconfirmed']][:10], 'trace_mismatches': [u for r in reps for u in r['trace_mismatch']][:5]},
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(conf)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    for r in reps:
        print('  %-34s paths=%-6s rej=%-5s q=%-6s solver=%.1fs asserts=%s/%s viol=%s known=%d unconf=%d trunc=%s unsup=%s to=%s tr=%d/%d wall=%.1fs %s' % (r['case'], r.get('paths'), r.get('rejected'), r.get('queries'), r.get('solver_s') or 0, r.get('asserts'), r.get('asserts_solver'), len(r['confirmed']), len(r['known']), len(r['unconfirmed']), r.get('truncated'), r.get('unsupported'), r.get('timeouts'), r['traces_ok'], r['traces_ok'] + r['traces_bad'], r['wall'], (r.get('error') or '')[:300]))
        for n in r.get('notes', [])[:6]: print('      note: ' + n.replace('\n', '\n        ')[:600])
        for u in r['unconfirmed'][:3]: print('      unconfirmed: %s -> %s %s' % (u['what'], u['native'], u['out'][-200:]))
        for u in r['trace_mismatch'][:2]: print('      trace mismatch: %s %s %s' % (u['file'], u['status'], u['out'][-200:]))
    if reach_missing: print('  UNREACHED', reach_missing)
    for l in lines: print(l)
    print('%s %s: %s in %.1fs (build %.1fs)%s' % (prop, tier, 'VIOLATED' if conf else 'held', time.time() - t0, tb, '' if exhaustive else ' [exploration not exhaustive: see evidence]'))
    return 1 if conf else 0

def do_replay(f):
    import config
    m = re.match(r'#! property=(\S+) job=(\S+) args=(\S*)', open(f).readline()); prop, job, args = m.groups()
    f = os.path.abspath(f);     j = dict(next(x for x in config.PROPS[prop]['jobs'] if x['name'] == job)); j['id'] = prop + '_' + job
    objs = build_all([j]); os.makedirs(B + '/link', exist_ok=True); exe = link_native(j, objs)
    st, txt = native_run(j, exe, f, None, [a for a in args.split(',') if a])
    print(txt); print('replay:', st); return 1 if st in ('violation', 'crash', 'timeout') else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'setup': build_engine(); sys.exit(0)
    if a and a[0] == 'replay': sys.exit(do_replay(a[1]))
    if a and a[0] == 'run':
        tier = a[2] if len(a) > 2 else 'quick'
        sys.exit(do_run(a[1], tier, a[3].split(',') if len(a) > 3 else None))
    print(__doc__); sys.exit(2)
