#!/usr/bin/env python3
"""Runs one property's solver-based check.  usage: driver.py <property> [quick|thorough]   |  driver.py --replay <file>  |  driver.py --setup"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, concurrent.futures as cf, fcntl, resource, re, threading
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('DSYM_REPO', '/repo'); B = os.path.join(V, 'build'); CXX = 'clang++-19'
sys.path.insert(0, V)
NCPU = os.cpu_count() or 4
STD = ['-std=c++20']
COMMON = ['-I%s/stubs' % V, '-I%s/rt' % V, '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-Wno-everything', '-fno-builtin-printf', '-fno-builtin-fprintf', '-fno-builtin-getenv']
UBSAN = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool,enum'
BCFLAGS = ['-O1', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-fno-pic', '-fno-pie', '-fno-stack-protector', '-U_FORTIFY_SOURCE']
WRAPS = 'getenv secure_getenv setenv fopen fopen64 fclose fflush ferror fwrite fread fputs fputc putc puts vfprintf fprintf printf perror dlopen dlsym dlerror dlclose exit __cxa_atexit getpid gettid'.split()

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths): h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def walk(d): return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]

class Lock:
    def __init__(s, n): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, n + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN); s.f.close()

def ensure_engine():
    tag = fhash([os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))])
    exe = os.path.join(B, 'dsym-' + tag)
    if os.path.exists(exe): return exe
    with Lock('engine'):
        if os.path.exists(exe): return exe
        d = tempfile.mkdtemp(prefix='dsymeng')
        try:
            r = sh(['make', '-j%d' % NCPU, '-C', os.path.join(V, 'engine'), 'OUT=' + d])
            if not os.path.exists(d + '/dsym'): raise RuntimeError('engine build failed\n' + r.stdout[-2000:] + r.stderr[-4000:])
            shutil.move(d + '/dsym', exe + '.tmp'); os.rename(exe + '.tmp', exe)
        finally: shutil.rmtree(d, ignore_errors=True)
    return exe

def ensure_rt():
    """runtime model bitcode + native runtime objects, cached by content"""
    tag = fhash(walk(os.path.join(V, 'rt')) + walk(os.path.join(V, 'stubs'))); d = os.path.join(B, 'rt-' + tag)
    if os.path.exists(d + '/ok'): return d
    with Lock('rt'):
        if os.path.exists(d + '/ok'): return d
        os.makedirs(d, exist_ok=True); jobs = []
        for f in ('crt', 'cxxrt', 'vfs'): jobs.append([CXX] + STD + COMMON + BCFLAGS + ['-fno-builtin', '%s/rt/%s.cpp' % (V, f), '-o', '%s/%s.bc' % (d, f)])
        for san, nm in (('-fsanitize=address,undefined', 'asan'), (None, 'plain'), ('-fsanitize=thread', 'tsan')):
            for f in ('vfs', 'native'): jobs.append([CXX] + STD + COMMON + ['-DDSYM_NATIVE', '-O1', '-g', '-c', '-fno-builtin'] + ['-D__real_%s=%s' % (w, w) for w in ('dlsym', 'fopen', 'fclose')] + ([san] if san else []) + ['%s/rt/%s.cpp' % (V, f), '-o', '%s/%s.%s.o' % (d, f, nm)])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, c in zip(ex.map(sh, jobs), jobs):
                if r.returncode: raise RuntimeError('rt build failed: ' + ' '.join(c) + '\n' + r.stderr[-4000:])
        r = sh(['llvm-link-19'] + ['%s/%s.bc' % (d, f) for f in ('crt', 'cxxrt', 'vfs')] + ['-o', d + '/rt.bc'])
        if r.returncode: raise RuntimeError(r.stderr)
        open(d + '/ok', 'w').close()
    return d

class Unit:
    """a set of repo sources + harness files compiled together"""
    def __init__(s, name, repo, harness, inc=(), defs=(), ub=True, extra=(), pch=None, partial=False):
        """pch: header precompiled once per build (also turns on the object cache); partial: the unit leaves functions it never calls undefined"""
        s.name, s.repo, s.harness, s.inc, s.defs, s.ub, s.extra, s.pch, s.partial = name, list(repo), list(harness), list(inc), list(defs), ub, list(extra), pch, partial
        s.lock = threading.Lock(); s.hlock = threading.Lock(); s.nat = {}; s._hh = None
    def headers(s):
        """digest of everything a source of this unit can include"""
        with s.hlock:
            if not s._hh:
                fs = [f for i in s.inc for f in walk('%s/%s' % (V, i[2:]) if i.startswith('v:') else '%s/%s' % (REPO, i))] + walk(V + '/stubs') + [V + '/rt/dsym.h', V + '/harness/' + s.pch]
                s._hh = fhash([f for f in fs if not f.endswith('.cpp')])
            return s._hh
    def compile(s, base, out, f, tag, ext):
        """one translation unit; with a precompiled header results are kept in build/obj under the digest of all inputs"""
        if not s.pch: return sh(base + [f, '-o', out])
        od = os.path.join(B, 'obj'); os.makedirs(od, exist_ok=True); hh = s.headers()
        pk = hashlib.sha256((hh + s.pch + ' '.join(base)).encode()).hexdigest()[:16]; pch = '%s/%s.pch' % (od, pk)
        with s.plock.setdefault(pk, threading.Lock()):
            if not os.path.exists(pch) and not os.path.exists(pch + '.bad'):
                with Lock('pch-' + pk):
                    if not os.path.exists(pch) and not os.path.exists(pch + '.bad'):
                        r = sh([x for x in base if x not in ('-emit-llvm', '-c')] + ['-x', 'c++-header', '-fpch-instantiate-templates', '%s/harness/%s' % (V, s.pch), '-o', pch + '.tmp'])
                        if r.returncode: open(pch + '.bad', 'w').write(r.stderr)
                        else: os.rename(pch + '.tmp', pch)
        key = hashlib.sha256((pk + f).encode() + open(f, 'rb').read() + (fhash([h for h in walk(V + '/harness') if h.endswith('.h')]).encode() if f.startswith(V + '/harness') else b'')).hexdigest()[:20]; c = '%s/%s%s' % (od, key, ext)
        if not os.path.exists(c):
            t = '%s.%d.tmp' % (c, threading.get_ident()); r = sh(base + (['-include-pch', pch] if os.path.exists(pch) else []) + [f, '-o', t])
            if r.returncode: return r
            os.rename(t, c)
        else: os.utime(c)
        shutil.copyfile(c, out); return subprocess.CompletedProcess([], 0, '', '')
    plock = {}
    def flags(s): return STD + COMMON + ['-I%s/%s' % (V, i[2:]) if i.startswith('v:') else '-I%s/%s' % (REPO, i) for i in s.inc] + s.defs + s.extra
    def srcs(s): return [(('%s/%s' % (V, x[2:])) if x.startswith('v:') else os.path.join(REPO, x), not x.startswith('v:')) for x in s.repo] + [('%s/harness/%s' % (V, h), False) for h in s.harness]
    def build_bc(s, d, rt):
        outs, cmds = [], []
        for i, (f, isrepo) in enumerate(s.srcs()):
            o = '%s/%s.%d.bc' % (d, s.name, i); outs.append(o)
            cmds.append(([CXX] + s.flags() + BCFLAGS + ([UBSAN, '-fsanitize-trap=all'] if s.ub else []), o, f))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, c in zip(ex.map(lambda c: s.compile(*c, 'bc', '.bc'), cmds), cmds):
                if r.returncode: return None, 'compile: ' + c[2] + '\n' + '\n'.join([l for l in r.stderr.split('\n') if 'error' in l][:8])
        bc = '%s/%s.bc' % (d, s.name)
        r = sh(['llvm-link-19'] + outs + [rt + '/rt.bc', '-o', bc])
        if r.returncode: return None, 'link: ' + r.stderr[-1500:]
        s.bc = bc; return bc, None
    def build_native(s, d, rt, kind='asan'):
        with s.lock:
            if kind in s.nat: return s.nat[kind]
            san = {'asan': ['-fsanitize=address', UBSAN, '-fno-sanitize-recover=all'], 'plain': [], 'tsan': ['-fsanitize=thread']}[kind]
            outs, cmds = [], []
            for i, (f, isrepo) in enumerate(s.srcs()):
                o = '%s/%s.%d.%s.o' % (d, s.name, i, kind); outs.append(o)
                cmds.append(([CXX] + s.flags() + ['-DDSYM_NATIVE', '-O0' if kind == 'plain' or s.pch else '-O1', '-gline-tables-only' if s.pch else '-g', '-c'] + ([] if kind == 'plain' else ['-ftrivial-auto-var-init=pattern']) + san, o, f))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for r, c in zip(ex.map(lambda c: s.compile(*c, kind, '.o'), cmds), cmds):
                    if r.returncode: s.nat[kind] = (None, 'native compile: ' + r.stderr[-1500:]); return s.nat[kind]
            exe = '%s/%s.%s' % (d, s.name, kind)
            redef = sum([['--redefine-sym', '%s=__wrap_%s' % (w, w)] for w in WRAPS], [])
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for r in ex.map(lambda o: sh(['llvm-objcopy-19'] + redef + [o]), outs):
                    if r.returncode: s.nat[kind] = (None, 'objcopy: ' + r.stderr[-500:]); return s.nat[kind]
            link = [CXX, '-rdynamic', '-o', exe] + outs + ['%s/%s.%s.o' % (rt, f, kind) for f in ('vfs', 'native')] + san + ['-ldl', '-lpthread']
            r = sh(link)
            if r.returncode and s.partial: # functions the harness never calls: define them as traps
                r = sh(link + ['-Wl,--no-demangle', '-Wl,--warn-unresolved-symbols']); und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
                st = '%s/%s.%s.stub.s' % (d, s.name, kind); open(st, 'w').write(''.join(('.data\n.globl %s\n%s: .zero 256\n' if re.match('_ZT[VIS]', u) else '.text\n.globl %s\n%s: ud2\n') % (u, u) for u in und))
                r = sh(link + [st])
            s.nat[kind] = (exe, None) if r.returncode == 0 else (None, 'native link: ' + r.stderr[-1500:])
            return s.nat[kind]

class Job:
    def __init__(s, unit, harness, cfg=None, t=60, real=False, reach=(), steps=50000000, qt=20000, thorough=None, samples=12, only=None, uninit=True, name=None, validate=True, expect=None, weight=1, bounds='', max_paths=None):
        s.unit, s.harness, s.cfg, s.t, s.real, s.reach, s.steps, s.qt, s.samples, s.only, s.uninit, s.validate, s.expect, s.bounds, s.max_paths = unit, harness, dict(cfg or {}), t, real, list(reach), steps, qt, samples, only, uninit, validate, expect, bounds, max_paths
        s.thorough = thorough or {}; s.weight = weight
        s.name = name or harness + ''.join('_%s%s' % (k, v) for k, v in sorted(s.cfg.items()))

def run_native(exe, harness, inputs, cfg, d, kind='asan', timeout=60):
    vf = tempfile.NamedTemporaryFile('w', dir=d, suffix='.vec', delete=False)
    for n, w, v in inputs: vf.write('%s %d %d\n' % (n, w, v))
    vf.close()
    env = {'PATH': os.environ.get('PATH', ''), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'exitcode=98:print_stacktrace=0', 'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1', 'HOME': d, 'TMPDIR': d}
    cmd = [exe, harness, vf.name] + ['%s=%d' % kv for kv in cfg.items()]
    if kind == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=96', '--track-origins=no'] + cmd
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=d, errors='replace', text=True)
    except subprocess.TimeoutExpired: os.unlink(vf.name); return {'how': 'timeout', 'rc': -99, 'obs': [], 'labels': [], 'err': ''}
    os.unlink(vf.name)
    obs, labels, end = [], [], None
    for l in r.stdout.split('\n'):
        p = l.split('\t')
        if len(p) < 3: continue
        if p[0] == 'OBS': obs.append([p[1], int(p[2])])
        elif p[0] == 'ASSERT': end = 'assert'; labels.append(p[1])
        elif p[0] == 'UNCAUGHT': end = 'uncaught'
        elif p[0] == 'END': end = p[1]
    if r.returncode in (99, 98, 97, 96) or r.returncode < 0 or 'runtime error:' in r.stderr: end = {99: 'asan', 98: 'ubsan', 97: 'tsan', 96: 'valgrind'}.get(r.returncode, 'ubsan' if 'runtime error:' in r.stderr else 'signal%d' % -r.returncode)
    return {'how': end or 'rc%d' % r.returncode, 'rc': r.returncode, 'obs': obs, 'labels': labels, 'err': r.stderr[-3000:]}

def confirm(job, err, unit, d, rt):
    """replay a counterexample on the real code; returns (confirmed, description)"""
    kinds = ['asan']
    if err['kind'] == 'uninit': kinds = ['asan', 'valgrind']
    if err['kind'] == 'race': kinds = ['tsan']
    desc = ''
    for k in kinds:
        exe, e = unit.build_native(d, rt, 'plain' if k == 'valgrind' else k)
        if not exe: return False, e
        for attempt in range(6 if k == 'tsan' else 1):
            r = run_native(exe, job.harness, err['inputs'], job.cfg, d, k, timeout=60 if k != 'valgrind' else 180)
            desc = '%s: %s %s' % (k, r['how'], r['labels'])
            if r['how'] in ('end', 'assume', 'exit'): continue
            if r['how'] == 'timeout':
                if err['kind'] in ('steps', 'deadlock') or 'no lock is kept' in err['label']: return True, desc + ' (does not terminate)'
                continue
            if r['how'].startswith('rc'): continue # the replay itself could not run
            return True, desc + ' ' + '\n'.join([l for l in r['err'].split('\n') if 'ERROR' in l or 'runtime error' in l or '#1 ' in l or '#2 ' in l or '#0 ' in l][:6])
    return False, desc

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); os.setpgid(0, 0)

def run_job(job, dsym, d, tier, deadline):
    out = '%s/%s.json' % (d, job.name); t = job.thorough.get('t', job.t * 6) if tier == 'thorough' else job.t
    t = max(5, min(t, deadline - time.time()))
    cmd = [dsym, job.unit.bc, '-h', job.harness, '-o', out, '-t', '%g' % t, '--steps', str(job.steps), '--qt', str(job.qt), '--samples', str(job.samples)]
    cfg = dict(job.cfg)
    if tier == 'thorough': cfg.update(job.thorough.get('cfg', {}))
    job.cfg = cfg
    for k, v in cfg.items(): cmd += ['-D', '%s=%d' % (k, v)]
    if job.real: cmd.append('--real')
    if not job.uninit: cmd.append('--no-uninit')
    if job.max_paths: cmd += ['--paths', str(job.max_paths)]
    t0 = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=t + 45, preexec_fn=limits); err = r.stderr
    except subprocess.TimeoutExpired: err = 'hard timeout'
    try: res = json.load(open(out))
    except Exception as e: res = {'failed': '%s %s' % (e, err[-800:]), 'paths': 0, 'instructions': 0, 'errors': [], 'samples': [], 'functions': [], 'reach': {}, 'asserts': {}, 'unsupported': ['engine failed: ' + err[-400:]], 'timed_out': True, 'unknown': 0, 'pruned': 0, 'forks': 0, 'solver': {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time_s': 0, 'max_s': 0, 'cache_hits': 0}}
    res['wall'] = time.time() - t0; return res

def findings(prop):
    """open findings of a property: id -> what fails (known_findings.txt)"""
    r = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r

def main(prop, tier, keep=None):
    import checks
    FINDINGS = findings(prop)
    T0 = time.time(); P = checks.PROPS[prop]; jobs = [j for j in P['jobs']() if not j.only or j.only == tier]
    budget = float(os.environ.get("DSYM_BUDGET", 800 if tier == "thorough" else P.get("budget", 600))); deadline = T0 + budget
    d = keep or tempfile.mkdtemp(prefix='dsym-'); os.makedirs(d, exist_ok=True); viol, notes, known, fails = [], [], [], []
    evd = os.path.join(V, 'evidence'); os.makedirs(evd, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            fe, fr = ex.submit(ensure_engine), ex.submit(ensure_rt); dsym, rt = fe.result(), fr.result()
        units = {}
        for j in jobs: units[j.unit.name] = j.unit
        bad = set()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for u, (bc, e) in zip(units.values(), ex.map(lambda u: u.build_bc(d, rt), units.values())):
                if e: fails.append('unit %s could not be encoded: %s' % (u.name, e)); bad.add(u.name)
        jobs = [j for j in jobs if j.unit.name not in bad]
        natex = cf.ThreadPoolExecutor(4); natf = {u.name: natex.submit(u.build_native, d, rt) for u in units.values() if u.name not in bad}
        tot = dict(paths=0, instr=0, queries=0, sat=0, unsat=0, unk=0, stime=0.0, smax=0.0, validated=0, mism=0, pruned=0, forks=0)
        funcs, samples, perjob, reachmiss = {}, [], [], []
        def post(job, res):
            out = []
            for e in res['errors']:
                if job.expect and job.expect['id'] in FINDINGS and re.search(job.expect['match'], e['kind'] + '|' + e['label']):
                    ok, desc = confirm(job, e, job.unit, d, rt); out.append(('known' if ok else 'unconf', e, desc)); continue
                if e['kind'] == 'steps' and not job.cfg.get('steps_violation'): out.append(('limit', e, '')); continue
                ok, desc = confirm(job, e, job.unit, d, rt); out.append(('viol' if ok else 'unconf', e, desc))
            val = mism = 0
            if job.validate and res['samples']:
                exe, er = natf[job.unit.name].result()
                if not exe: out.append(('note', None, er))
                else:
                    for s in res['samples']:
                        r = run_native(exe, job.harness, s['inputs'], job.cfg, d)
                        if r['how'] in ('end', 'exit') and (r['obs'] == s['observed']): val += 1
                        elif r['how'] in ('asan', 'ubsan', 'assert', 'uncaught') or r['how'].startswith('signal'):
                            out.append(('viol' if not job.expect else 'note', {'kind': 'replay', 'label': 'a path the solver found safe fails natively: ' + r['how'] + ' ' + ' '.join(r['labels']), 'inputs': s['inputs'], 'stack': r['err'][:1500], 'loc': '', 'notes': []}, r['how']))
                        else: mism += 1; out.append(('mism', None, 'job %s: native %s obs %s, engine %s inputs %s' % (job.name, r['how'], r['obs'][:12], s['observed'][:12], s['inputs'][:20])))
            if job.validate and res.get('partials') and not any(o[0] == 'viol' for o in out):
                exe, er = natf[job.unit.name].result()
                for q in res['partials'] if exe else []:
                    r = run_native(exe, job.harness, q['inputs'], job.cfg, d)
                    if r['how'] in ('asan', 'ubsan', 'assert', 'uncaught') or r['how'].startswith('signal'):
                        out.append(('viol' if not job.expect else 'note', {'kind': 'assert' if r['how'] == 'assert' else 'replay', 'label': ' '.join(r['labels']) or 'inputs that lead out of the encoding fail on the compiled code: ' + r['how'], 'inputs': q['inputs'], 'stack': r['err'][:1500], 'loc': '', 'notes': [], 'pc': ''}, r['how'])); break
            return out, val, mism
        def whole(job):
            res = run_job(job, dsym, d, tier, deadline); return job, res, post(job, res)
        jobs.sort(key=lambda j: -j.weight * j.t)
        with cf.ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(whole, jobs))
        for job, res, (out, val, mism) in results:
            if res.get('failed'): fails.append('%s: %s' % (job.name, res['failed']))
            tot['paths'] += res['paths']; tot['instr'] += res['instructions']; tot['forks'] += res['forks']; tot['pruned'] += res['pruned']; so = res['solver']
            tot['queries'] += so['queries']; tot['sat'] += so['sat']; tot['unsat'] += so['unsat']; tot['unk'] += so['unknown']; tot['stime'] += so['time_s']; tot['smax'] = max(tot['smax'], so['max_s']); tot['validated'] += val; tot['mism'] += mism
            for f in res['functions']:
                k = f['name']
                if f['file'].startswith(REPO) or '/repo/' in f['file']: o = funcs.get(k); funcs[k] = {'file': f['file'].replace(REPO + '/', ''), 'ir_instructions': f['ins'], 'covered': max(f['covered'], o['covered'] if o else 0)}
            miss = [r for r in job.reach if r not in res['reach']]
            if miss: reachmiss.append('%s: %s' % (job.name, miss))
            complete = not res['timed_out'] and not res['unsupported'] and not res['unknown'] and not res.get('failed')
            perjob.append({'job': job.name, 'bounds': job.bounds, 'cfg': job.cfg, 'paths': res['paths'], 'queries': so['queries'], 'solver_s': round(so['time_s'], 2), 'wall_s': round(res['wall'], 2), 'complete': complete, 'asserts': res['asserts'], 'reach': res['reach'], 'unsupported': [u[:200] for u in res['unsupported'][:3]], 'timed_out': res['timed_out'], 'unknown': res['unknown'], 'errors': len(res['errors'])})
            if res['samples'] and len(samples) < 12: samples.append({'job': job.name, 'inputs': [[i[0], i[2]] for i in res['samples'][-1]['inputs'][:24]], 'observed': res['samples'][-1]['observed'][:12], 'end': res['samples'][-1]['end']})
            for k, e, desc in out:
                if k == 'viol': viol.append((job, e, desc))
                elif k == 'known': known.append((job, e, desc))
                elif k == 'unconf': notes.append('unconfirmed %s|%s at %s in %s: %s' % (e['kind'], e['label'], e['loc'], job.name, desc))
                elif k == 'limit': notes.append('step limit in %s' % job.name)
                elif k in ('mism', 'note'): notes.append('%s: %s' % (k, desc))
        incomplete = [p['job'] for p in perjob if not p['complete']]
        reachmiss += ['%s (no job)' % r for r in P.get('reach', ()) if not any(r in p['reach'] for p in perjob)]
        seen = set(); vout = []
        shutil.rmtree(os.path.join(evd, 'replay-' + prop), ignore_errors=True)
        for job, e, desc in viol:
            key = (job.harness, e['kind'], e['label'], e['loc'])
            if key in seen: continue
            seen.add(key); rd = os.path.join(evd, 'replay-' + prop); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, '%d.json' % len(vout))
            json.dump({'property': prop, 'job': job.name, 'harness': job.harness, 'unit': job.unit.name, 'cfg': job.cfg, 'kind': e['kind'], 'label': e['label'], 'loc': e['loc'], 'stack': e['stack'], 'notes': e['notes'], 'inputs': e['inputs'], 'confirmed': desc, 'how': 'python3 driver.py --replay ' + rp}, open(rp, 'w'), indent=1)
            vout.append((rp, e, job, desc))
        kseen = set()
        for job, e, desc in known:
            if job.expect['id'] in kseen: continue
            kseen.add(job.expect['id']); print('KNOWN-FINDING: property=%s %s' % (prop, FINDINGS[job.expect['id']]))
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(vout),
              'coverage': {'states': tot['paths'], 'transitions': tot['instr'], 'traces_validated_against_impl': tot['validated'], 'samples': samples or [{'job': 'none', 'note': 'no path completed'}], 'exhaustive': not incomplete and not fails and not notes and not reachmiss,
                           'meaning': 'states = symbolic execution paths completed (each stands for every input satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces_validated = sampled path models replayed on the natively compiled code with equal observations',
                           'forks': tot['forks'], 'infeasible_or_ended_paths': tot['pruned'], 'functions_encoded': funcs, 'queries': {'total': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unk'], 'solver_time_s': round(tot['stime'], 2), 'slowest_s': round(tot['smax'], 2)}, 'bounds': P['bounds'], 'jobs': perjob, 'incomplete_jobs': incomplete, 'unreached_witnesses': reachmiss, 'native_mismatches': tot['mism'], 'notes': notes[:40], 'build_or_engine_failures': fails}, 'assumptions': P.get('assumptions', []) + checks.GLOBAL_ASSUMPTIONS}
        json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
        print('%s %s: %d paths, %d queries (%.1fs solver), %d traces validated, %d functions, %.1fs%s%s%s' % (prop, tier, tot['paths'], tot['queries'], tot['stime'], tot['validated'], len(funcs), time.time() - T0, ' incomplete=%s' % incomplete if incomplete else '', ' WITNESS-MISSING=%s' % reachmiss if reachmiss else '', ' mismatches=%d' % tot['mism'] if tot['mism'] else ''))
        for n in notes[:8]: print('  note:', n[:600])
        for f in fails[:4]: print('  INCONCLUSIVE:', f[:1500])
        if os.environ.get('DSYM_VERBOSE'):
            for p in perjob: print('  job', p['job'], 'paths', p['paths'], 'wall', p['wall_s'], 'q', p['queries'], 'errors', p['errors'], p['unsupported'], 'TO' if p['timed_out'] else '', 'unk%d' % p['unknown'] if p['unknown'] else '')
        for rp, e, job, desc in vout:
            print('  violated: [%s] %s at %s (job %s) confirmed by %s' % (e['kind'], e['label'], e['loc'], job.name, desc[:300])); print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1 if vout else 0
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)

def replay(path):
    import checks
    r = json.load(open(path)); P = checks.PROPS[r['property']]; job = [j for j in P['jobs']() if j.harness == r['harness']][0]; job.cfg = r['cfg']
    d = tempfile.mkdtemp(prefix='dsym-')
    try:
        rt = ensure_rt(); job.unit.nat = {}; ok, desc = confirm(job, r, job.unit, d, rt); print(('REPRODUCED ' if ok else 'not reproduced ') + desc); return 1 if ok else 0
    finally: shutil.rmtree(d, ignore_errors=True)

def setup():
    """engine, runtime model and the object cache of the large units"""
    import checks
    ensure_engine(); rt = ensure_rt()
    if os.path.isdir(B + '/obj'): # drop what has not been used for a day
        for f in os.listdir(B + '/obj'):
            f = B + '/obj/' + f
            if time.time() - os.stat(f).st_mtime > 86400 and not f.endswith('.pch'): os.unlink(f)
    for u in checks.LARGE():
        d = tempfile.mkdtemp(prefix='dsymset')
        try:
            print(u.name, 'bc', u.build_bc(d, rt)[1] or 'ok', 'asan', u.build_native(d, rt)[1] or 'ok')
        finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == '--setup': setup(); print('setup ok'); sys.exit(0)
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    try: rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'), os.environ.get('DSYM_KEEP'))
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
