#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its real code.

  check.py ID [--tier quick|thorough] [--run NAME] [-v] [--jobs N] [--profile]

Every run recompiles the sources of /repo's working tree to LLVM bitcode,
links them with the property's harnesses (harness/*.c) and the environment
model (lib/*.c), executes every feasible path of each harness symbolically
with engine/pgsym (Z3 decides branches, memory safety and assertions), and
replays each counterexample against the natively compiled real code (ASan)
before reporting it.  Exit 0: held on everything explored.  Exit 1: VIOLATION.
"""
import sys, os, json, subprocess, hashlib, shutil, time, threading, argparse, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PG_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
sys.path.insert(0, V)

# functions whose libc implementation is replaced by lib/io.c
IOFN = '''fopen fopen64 fdopen fclose fread fgetc getc ungetc fgets getline feof ferror fileno fseek fseeko ftell ftello rewind
setvbuf setbuf open open64 read close getrandom getenv secure_getenv mlockall mlock munlock fwrite fputc putc putchar fputs puts write
fflush perror vfprintf vprintf printf fprintf dprintf'''.split()
ALLOCFN = ['malloc', 'calloc', 'realloc', 'free', 'exit', 'abort', '__assert_fail']

class Err(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise Err('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

def build_engine():
    out = os.path.join(BUILD, 'pgsym')
    src = [os.path.join(V, 'engine', f) for f in ('pgsym.cpp', 'expr.cpp', 'expr.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = out + '.stamp'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
        sh(['make', '-B', '-C', os.path.join(V, 'engine'), 'OUT=' + out])
        open(stamp, 'w').write(h)
    return out

# ------------------------------------------------------------------ sources
def cmake_sources():
    """library and CLI sources: every .c below src except the unit tests, benchmarks and tools"""
    lib, cli = [], []
    root = os.path.join(REPO, 'src')
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root); top = rel.split(os.sep)[0]
        if top in ('tests', 'bench', 'tools'): continue
        for f in sorted(fn):
            if f.endswith('.c'): (cli if top == 'cli' else lib).append(os.path.join(d, f))
    return sorted(lib), sorted(cli)

class Tree:
    """one configuration of /repo's sources compiled to bitcode (and, on demand, natively)"""
    cache = {}; glock = threading.Lock()
    def __init__(self, config, work):
        self.config = config; self.work = os.path.join(work, config); os.makedirs(self.work, exist_ok=True)
        inc = os.path.join(self.work, 'inc', 'passgen'); os.makedirs(inc, exist_ok=True)
        defs = {'debug': ['PASSGEN_DEBUG', 'PASSGEN_MEMORY', 'PASSGEN_MLOCK', 'PASSGEN_MONOCYPHER'],
                'release': ['PASSGEN_MEMORY', 'PASSGEN_MLOCK', 'PASSGEN_MONOCYPHER'],
                'nocrypto': ['PASSGEN_DEBUG', 'PASSGEN_MEMORY', 'PASSGEN_MLOCK'],
                'nomemory': ['PASSGEN_DEBUG', 'PASSGEN_MLOCK', 'PASSGEN_MONOCYPHER']}[config]
        t = open(os.path.join(REPO, 'include/passgen/config.h.in')).read()
        t = re.sub(r'#cmakedefine\s+(\w+)', lambda m: '#define %s' % m.group(1) if m.group(1) in defs else '/* #undef %s */' % m.group(1), t)
        self.write(os.path.join(inc, 'config.h'), t)
        cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', cm); ver = m.groups() if m else ('0', '0', '0')
        t = open(os.path.join(REPO, 'src/version.c.in')).read()
        for k, v in zip(('MAJOR', 'MINOR', 'PATCH'), ver): t = t.replace('@PROJECT_VERSION_%s@' % k, v)
        t = re.sub(r'@\w+@', 'x', t)
        self.version_c = os.path.join(self.work, 'version.c'); self.write(self.version_c, t)
        self.flags = ['-I' + os.path.join(self.work, 'inc'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(V, 'lib'),
                      '-DPASSGEN_STATIC_DEFINE', '-D_GNU_SOURCE', '-std=gnu11']
        self.lib, self.cli = cmake_sources(); self.lib = [s for s in self.lib if not s.endswith('version.c')] + [self.version_c]
        self.lock = threading.Lock()
    @staticmethod
    def write(p, t):
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    def obj(self, src, kind, extra=()):
        """compile one source; kind 'bc' or 'o'"""
        key = hashlib.sha256((src + kind + ' '.join(extra)).encode()).hexdigest()[:10]
        out = os.path.join(self.work, os.path.basename(src)[:-2] + '-' + key + '.' + kind)
        with Tree.glock: l = Tree.cache.setdefault(out, [threading.Lock(), False])
        with l[0]:
            if l[1]: return out
            if kind == 'bc': f = ['-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-stack-protector']
            else: f = ['-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-builtin']
            sh([CLANG, '-c', '-w', '-Wno-int-conversion', '-Wno-incompatible-pointer-types', '-Wno-implicit-function-declaration'] + f + self.flags + list(extra) + [src, '-o', out])
            l[1] = True
        return out

def harness_src(run): return os.path.join(V, 'harness', run['src'])

def sources(tree, run):
    s = list(tree.lib)
    if run.get('cli'): s += [c for c in tree.cli if run.get('cli') == 'main' or not c.endswith('main.c')]
    return s

def repo_extra(run, src, native=False):
    x = []
    if src.startswith(REPO) and '/cli/' in src:
        x += ['-DPASSGEN_SECCOMP']
    x += run.get('repo_flags', [])
    return tuple(x)

def build_bc(tree, run, pool, path):
    hflags = tuple(run.get('flags', []))
    jobs = [pool.submit(tree.obj, s, 'bc', repo_extra(run, s)) for s in sources(tree, run)]
    h = pool.submit(tree.obj, harness_src(run), 'bc', hflags)
    l = [pool.submit(tree.obj, os.path.join(V, 'lib', f), 'bc') for f in ('libc.c', 'io.c')]
    base = [j.result() for j in jobs] + [x.result() for x in l]; hb = h.result()
    if run.get('override'): sh(['llvm-link-18'] + base + ['--override=' + hb, '-o', path + '.l'])
    else: sh(['llvm-link-18'] + base + [hb, '-o', path + '.l'])
    sh(['opt-18', '-passes=' + run.get('passes', 'mem2reg,simplifycfg'), path + '.l', '-o', path])

def build_native(tree, run, pool, path):
    hflags = tuple(run.get('flags', [])) + ('-DPG_NATIVE',)
    jobs = [pool.submit(tree.obj, s, 'o', repo_extra(run, s, True)) for s in sources(tree, run)]
    h = pool.submit(tree.obj, harness_src(run), 'o', hflags)
    n = pool.submit(tree.obj, os.path.join(V, 'lib', 'native.c'), 'o', ('-DPG_ENTRY=' + run['entry'], '-fno-sanitize=address'))
    io = pool.submit(tree.obj, os.path.join(V, 'lib', 'io.c'), 'o', ('-DPG_NATIVE',))
    objs = [j.result() for j in jobs]
    if run.get('override'):
        no = []
        for o in objs:
            w = '%s.%s.weak.o' % (o, hashlib.sha256(path.encode()).hexdigest()[:8]); sh(['objcopy', '--weaken', o, w]); no.append(w)
        objs = no
    sh([CLANG, '-fsanitize=address', '-o', path, h.result(), n.result(), io.result()] + objs + ['-Wl,--wrap=%s' % f for f in IOFN + ALLOCFN] + ['-lm'])

def write_replay(path, run, params, inputs, extra=''):
    with open(path, 'w') as f:
        if extra: f.write('# ' + extra.replace('\n', '\n# ') + '\n')
        for k, v in sorted(params.items()): f.write('param %d %d\n' % (k, v))
        for i in inputs: f.write('input %s %s\n' % (i['name'].replace(' ', '_'), i['hex']))

def replay(exe, path, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='exitcode=78:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1')
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 'hang', 'timeout after %ds' % timeout
    o = r.stdout
    if r.returncode == 77: return 'violation', (re.findall(r'PG-VIOLATION.*', o) or [''])[0]
    if r.returncode == 78: return 'violation', (re.findall(r'ERROR: AddressSanitizer.*', o) or [o[-300:]])[0]
    if r.returncode < 0: return 'violation', 'signal %d' % -r.returncode
    if r.returncode == 0: return ('ok' if 'PG-ASSUME' not in o else 'assume'), ''
    return 'diverged', o[-400:]

class Sem:
    def __init__(s, n): s.n = n; s.c = threading.Condition()
    def take(s, k):
        with s.c:
            s.c.wait_for(lambda: s.n >= k); s.n -= k
    def give(s, k):
        with s.c: s.n += k; s.c.notify_all()

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--run'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8)); ap.add_argument('--profile', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--p', action='append', default=[]); ap.add_argument('--time', type=float)
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.setup: print('engine', build_engine()); return
    import props
    P = props.PROPS[a.id]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    deadline = t0 + (700 if tier == 'quick' else 3 * 3600)
    work = os.path.join(BUILD, 'run-%s-%s%s' % (a.id, tier, '-' + a.run if a.run else '')); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    pool = ThreadPoolExecutor(8); rpool = ThreadPoolExecutor(16); sem = Sem(a.jobs)
    eng = pool.submit(build_engine)
    trees = {}
    runs = [r for r in P['runs'] if (not a.run or r['name'] == a.run) and tier in r.get('tiers', ('quick', 'thorough'))]
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == a.id]
    results = []; lock = threading.Lock()
    def params_of(r):
        p = dict(r.get('params', {})); p.update(r.get('thorough', {}) if tier == 'thorough' else {})
        p = {int(k): v for k, v in p.items()}
        if r.get('version_params'):
            m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
            if m: p.update({0: int(m.group(1)), 1: int(m.group(2)), 2: int(m.group(3))})
        for x in a.p: k, v = x.split('='); p[int(k)] = int(v)
        mask = 0
        for k in known: mask |= 1 << k.get('bit', 0)
        if mask: p[63] = mask
        return p
    def dorun(r):
        cfg = r.get('config', 'debug')
        with lock:
            if cfg not in trees: trees[cfg] = Tree(cfg, work)
        tree = trees[cfg]; base = os.path.join(work, r['name']); bc = base + '.bc'
        build_bc(tree, r, pool, bc); e = eng.result()
        j = min(a.jobs, r.get('jobs', 1)); sem.take(j)
        try:
            tl = r.get('time', 120) if tier == 'quick' else r.get('time_thorough', 1500)
            if a.time: tl = a.time
            tl = max(5, min(tl, deadline - time.time())); p = params_of(r)
            cmd = [e, bc, '--entry', r['entry'], '--out', base + '.json', '--jobs', str(j), '--time', '%.0f' % tl, '--mem', '%.1f' % (24.0 / max(a.jobs, 1)), '--maxinst', str(r.get('maxinst', 20000000)), '--maxviol', str(r.get('maxviol', 6))]
            for k, v in p.items(): cmd += ['--param', '%d=%d' % (k, v)]
            if a.profile: cmd.append('--profile')
            ts = time.time()
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try: eout = pr.communicate(timeout=tl + 40)[0]; early = None if pr.returncode == 0 else 'engine ended with status %d: %s' % (pr.returncode, eout[-300:])
            except subprocess.TimeoutExpired: pr.kill(); eout = ''; early = 'engine stopped at the time limit'
            if a.v or a.profile: sys.stderr.write(eout)
            if early and pr.returncode == 3: raise Err('engine failed on %s: %s' % (r['name'], eout[-2000:]))
        finally: sem.give(j)
        import glob
        parts = []; crashed = False
        for f in sorted(glob.glob(base + '.json*')):
            try: d = json.load(open(f), strict=False)
            except ValueError: crashed = True; continue
            if 'parts' in d: crashed |= bool(d.get('crashed')); continue
            parts.append(d)
        if early: # no complete verdict: reported as not exhaustive
            z = {k: 0 for k in ('paths', 'forks', 'queries', 'sat', 'unsat', 'cache_hits', 'unknown', 'byte_queries', 'solver_s', 'instructions', 'asserts', 'asserts_symbolic', 'memory_queries', 'assumed_away', 'exit_paths', 'symbolic_bytes')}
            z.update(covers={}, functions={}, incomplete=[early], samples=[], violations=[], witnesses=[]); parts.append(z)
        m = {k: sum(x[k] for x in parts) for k in ('paths', 'forks', 'queries', 'sat', 'unsat', 'cache_hits', 'unknown', 'byte_queries', 'solver_s', 'instructions', 'asserts', 'asserts_symbolic', 'memory_queries', 'assumed_away', 'exit_paths')}
        m['symbolic_bytes'] = max(x['symbolic_bytes'] for x in parts)
        for k in ('covers', 'functions'):
            d = {}
            for x in parts:
                for n, c in x[k].items(): d[n] = d.get(n, 0) + c
            m[k] = d
        m['incomplete'] = sorted(set(sum((x['incomplete'] for x in parts), []))); m['samples'] = sum((x['samples'] for x in parts), [])[:6]
        if crashed: m['incomplete'].append('a worker process ended early')
        m['violations'] = sum((x['violations'] for x in parts), []); m['witnesses'] = sum((x['witnesses'] for x in parts), [])
        m['run'] = r; m['params'] = p; m['wall'] = time.time() - ts
        with lock: results.append(m)
        return m
    errs = []; futs = [(r, rpool.submit(dorun, r)) for r in runs]
    for r, f in futs:
        try: f.result()
        except Exception as ex: errs.append('%s: %s' % (r['name'], ex))
    if errs:
        for e in errs: print('ERROR', e)
        sys.exit(2)
    results.sort(key=lambda m: [r['name'] for r in runs].index(m['run']['name']))
    # ---- replay
    repdir = os.path.join(BUILD, 'replay', a.id); os.makedirs(repdir, exist_ok=True)
    nviol = 0; unconfirmed = []; validated = 0; mism = []; out_viol = []
    def native(r):
        tree = trees[r.get('config', 'debug')]; exe = os.path.join(work, r['name'] + '.native')
        build_native(tree, r, pool, exe); return exe
    def post(m):
        r = m['run']; res = []; ok = 0; mm = []
        if not m['violations'] and (r.get('nowitness') or not m['witnesses']): return res, 0, mm
        exe = native(r)
        seen = set()
        for i, v in enumerate(m['violations']):
            key = (v['kind'], v['loc'], v['msg'] if v['kind'] == 'assert' else '', tuple(n for n in v['notes'] if n.startswith('class:')))
            if key in seen and i > 8: continue
            seen.add(key)
            p = os.path.join(repdir, '%s-%d.txt' % (r['name'], i))
            write_replay(p, r, m['params'], v['inputs'], 'property=%s harness=%s entry=%s config=%s\n%s: %s\n%s\n%s' % (a.id, r['src'], r['entry'], r.get('config', 'debug'), v['kind'], v['msg'], v['stack'], '; '.join(v['notes'])))
            st, info = replay(exe, p, 20)
            good = st == 'violation' or (st == 'hang' and v['kind'] == 'hang')
            res.append((good, v, p, st, info))
        if not r.get('nowitness'):
            for i, w in enumerate(m['witnesses'][:8]):
                p = os.path.join(work, '%s.wit%d.txt' % (r['name'], i)); write_replay(p, r, m['params'], w)
                st, info = replay(exe, p, 30)
                if st == 'ok': ok += 1
                else: mm.append((r['name'], p, st, info))
        return res, ok, mm
    for m, (res, ok, mm) in zip(results, rpool.map(post, results)):
        validated += ok; mism += mm
        for good, v, p, st, info in res:
            if good: out_viol.append((m, v, p, info))
            else: unconfirmed.append((m, v, p, st, info))
    # ---- known findings (demonstrated natively on their recorded input)
    for k in known:
        if not k.get('run'): continue
        r = [x for x in P['runs'] if x['name'] == k['run']]
        if not r: continue
        r = r[0]; cfg = r.get('config', 'debug')
        if cfg not in trees: trees[cfg] = Tree(cfg, work)
        exe = native(r); p = os.path.join(work, 'known-%s.txt' % k['id'])
        pp = {int(x): y for x, y in dict(r.get('params', {})).items()}; pp.update({int(x): y for x, y in k.get('params', {}).items()}); pp[63] = 0
        write_replay(p, r, pp, k['inputs']); st, info = replay(exe, p, 20)
        if st in ('violation', 'hang'): print('KNOWN-FINDING: property=%s %s' % (a.id, k['what']))
    # ---- report
    for m in results:
        miss = [c for c in m['run'].get('covers', []) if not m['covers'].get(c)]
        m['missing'] = miss
        print('%-22s paths=%d forks=%d queries=%d (unsat %d) solver=%.1fs asserts=%d/%d sym_bytes=%d wall=%.1fs%s%s' % (m['run']['name'], m['paths'], m['forks'], m['queries'], m['unsat'], m['solver_s'], m['asserts'], m['asserts_symbolic'], m['symbolic_bytes'], m['wall'], ' INCOMPLETE: ' + ', '.join(m['incomplete']) if m['incomplete'] else '', ' MISSING COVER: ' + ','.join(miss) if miss else ''))
        if a.v: print('   covers', m['covers'])
    for m, v, p, st, info in unconfirmed: print('UNCONFIRMED %s: %s %s at %s (native: %s %s) %s' % (m['run']['name'], v['kind'], v['msg'], v['loc'], st, info, p))
    for n, p, st, info in mism: print('WITNESS-MISMATCH %s %s: %s %s' % (n, p, st, info))
    if len(out_viol) > 6: print('  (%d violations, first 6 shown)' % len(out_viol))
    for m, v, p, info in out_viol[:6]:
        print('  %s: %s %s at %s' % (m['run']['name'], v['kind'], v['msg'], v['loc'])); print('    stack %s' % v['stack'][:300]); print('    native: %s' % info)
        if v['notes']: print('    notes', v['notes'])
        print('    inputs ' + ' '.join('%s=%s' % (i['name'], i['hex'][:80]) for i in v['inputs'])[:600])
    fn = {}
    for m in results:
        for k, c in m['functions'].items(): fn[k] = fn.get(k, 0) + c
    stubs = set(sum((r.get('stubbed', []) for r in runs), []))
    repofns = sorted(k for k in fn if (k.startswith('passgen_') or k in P.get('functions', [])) and k not in stubs)
    complete = not any(m['incomplete'] or m['missing'] for m in results) and not unconfirmed
    tot = lambda k: sum(m[k] for m in results)
    ev = {'property': a.id, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
          'coverage': {'states': tot('forks') + tot('paths'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated,
                       'samples': sum((['%s: %s' % (m['run']['name'], s) for s in m['samples'][:2]] for m in results), [])[:20],
                       'exhaustive_within_bounds': complete, 'paths': tot('paths'), 'queries_discharged': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'), 'queries_decided_by_byte_domain': tot('byte_queries'),
                       'solver_seconds': round(tot('solver_s'), 2), 'assertions_checked': tot('asserts'), 'assertions_symbolic': tot('asserts_symbolic'), 'memory_safety_queries': tot('memory_queries'), 'functions_encoded': repofns,
                       'runs': [{'name': m['run']['name'], 'entry': m['run']['entry'], 'config': m['run'].get('config', 'debug'), 'params': m['params'], 'bounds': m['run'].get('bounds', ''), 'paths': m['paths'], 'symbolic_bytes': m['symbolic_bytes'], 'queries': m['queries'], 'solver_s': round(m['solver_s'], 2), 'covers': m['covers'], 'incomplete': m['incomplete'] + ['cover not reached: ' + c for c in m['missing']], 'wall_s': round(m['wall'], 2)} for m in results],
                       'unconfirmed': ['%s %s %s' % (v['kind'], v['msg'], v['loc']) for m, v, p, st, info in unconfirmed], 'witness_mismatches': len(mism)},
          'assumptions': P.get('assumptions', []) + props.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(out_viol)}
    if not a.run or a.keep:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(V, 'evidence', a.id + '.json'), 'w'), indent=1)
    if not a.keep and not out_viol and not unconfirmed and not mism and not a.run: shutil.rmtree(work, ignore_errors=True)
    for m, v, p, info in out_viol[:3]: print('VIOLATION property=%s replay=%s' % (a.id, p))
    if out_viol: sys.exit(1)
    print('%s %s in %.1fs' % (a.id, 'OK' if complete else 'held on everything explored (NOT exhaustive, see above)', time.time() - t0))
    sys.exit(0)
if __name__ == '__main__':
    try: main()
    except Err as e: print('ERROR', e); sys.exit(2)
