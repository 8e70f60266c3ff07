"""Driver shared by all checks: expand with the current generator, compile to IR, execute symbolically, replay natively, report."""
import glob, hashlib, json, multiprocessing, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
TRIPLE = 'x86_64-unknown-linux-gnu'
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(VERIF, 'engine'))


class EnvError(Exception):
    """the check could not be carried out (exit 2)"""


class BuildViolation(Exception):
    """generator output for a supported interface is rejected (by the generator, rustc, clang or javac)"""
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def sh(cmd, cwd=None, env=None, timeout=800, inp=None):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, input=inp)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = sorted(os.path.join(d, f) for d, ds, ff in os.walk(root) for f in ff if '/target/' not in d)
        for f in fs:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def prune(pattern, keep, n=3):
    ds = [d for d in glob.glob(pattern) if d != keep]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-n] if len(ds) > n else []:
        shutil.rmtree(d, ignore_errors=True)


def ensure_vgen():
    """build the expansion driver against /repo/macroslib's current sources"""
    h = tree_hash([REPO + '/macroslib/src', REPO + '/macroslib/Cargo.toml', REPO + '/macroslib/build.rs', VERIF + '/gen/src', VERIF + '/gen/Cargo.toml'])
    td = os.path.join(BUILD, 'vgen-' + h)
    exe = os.path.join(td, 'debug', 'vgen')
    if not os.path.exists(exe + '.ok'):
        os.makedirs(BUILD, exist_ok=True)
        prune(os.path.join(BUILD, 'vgen-*'), td)
        rc, out = sh(['cargo', 'build', '--offline', '--locked'], cwd=VERIF + '/gen', env={'CARGO_TARGET_DIR': td, 'RUSTUP_TOOLCHAIN': 'stable', 'RUSTFLAGS': '--cap-lints allow'})
        if rc != 0:
            raise EnvError('building the generator failed:\n' + out[-4000:])
        open(exe + '.ok', 'w').close()
    return exe


def generate(kind, iface, out_rs, out_dir, opts=()):
    exe = ensure_vgen()
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    if os.path.exists(out_rs):
        os.unlink(out_rs)
    rc, out = sh([exe, kind, iface, out_rs, out_dir] + list(opts), timeout=300)
    if rc != 0 or not os.path.exists(out_rs):
        raise BuildViolation('the generator rejects a supported interface (%s)' % os.path.basename(iface), out)
    return out


def cargo_glue(name, srcdir, crate_types='"staticlib"', deps='', panic='abort', extra=()):
    """compile srcdir/src/lib.rs with std from source; returns (list of .ll, target dir)"""
    td = os.path.join(BUILD, 'glue-target')
    with open(os.path.join(srcdir, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname="%s"\nversion="0.1.0"\nedition="2021"\n[lib]\ncrate-type=[%s]\n[workspace]\n[dependencies]\n%s\n[profile.dev]\npanic="%s"\nopt-level=1\ndebug=false\ncodegen-units=1\nincremental=false\n' % (name, crate_types, deps, panic))
    rc, out = sh(['cargo', 'build', '--offline', '-Zbuild-std=core,alloc,std,panic_abort', '--target', TRIPLE], cwd=srcdir,
                 env={'CARGO_TARGET_DIR': td, 'RUSTUP_TOOLCHAIN': 'stable', 'RUSTC_BOOTSTRAP': '1',
                      'RUSTFLAGS': '--emit=llvm-ir -Zshare-generics=no -Cno-vectorize-loops -Cno-vectorize-slp -Cembed-bitcode=no --cap-lints allow'})
    d = os.path.join(td, TRIPLE, 'debug', 'deps')
    if rc != 0:
        if re.search(r'could not compile `%s`' % re.escape(name), out):
            raise BuildViolation('rustc rejects the generated glue', out)
        raise EnvError('cargo failed:\n' + out[-4000:])
    lls = []
    for k in (name, 'alloc', 'core', 'std', 'hashbrown', 'memchr', 'std_detect', 'panic_abort') + tuple(extra):
        c = [p for p in glob.glob(os.path.join(d, k.replace('-', '_') + '-*.ll')) if re.fullmatch(re.escape(k.replace('-', '_')) + r'-[0-9a-f]{16}\.ll', os.path.basename(p))]
        c.sort(key=os.path.getmtime)
        if c:
            lls.append(c[-1])
        elif k == name:
            raise EnvError('no IR for ' + k)
    return lls, os.path.join(td, TRIPLE, 'debug')


CXX = ['clang++', '-std=c++17', '-O1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-include', VERIF + '/rt/noext.h', '-Wno-everything', '-fno-stack-protector', '-U_FORTIFY_SOURCE']


def stage_cpp(sid, iface, harness_files, opts=(), cxxflags=()):
    """returns dict(lls, native exe)"""
    w = os.path.join(BUILD, 'suite', sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/glue/src')
    hdr = w + '/rust_interface'
    generate('cpp', iface, w + '/glue/src/out.rs', hdr, opts)
    with open(w + '/glue/src/lib.rs', 'w') as f:
        f.write(open(VERIF + '/rt/lib_head.rs').read())
        f.write('include!("out.rs");\n')
    name = 'glue_' + sid.lower()
    lls, tdir = cargo_glue(name, w + '/glue')
    inc = ['-I', w, '-I', VERIF + '/rt', '-I', VERIF + '/suites']
    objs = []
    cmds = []
    for h in harness_files:
        b = w + '/' + os.path.basename(h)
        ll = b + '.ll'
        cmds.append(CXX + list(cxxflags) + ['-fno-pic', '-S', '-emit-llvm', '-o', ll, h] + inc)
        lls.insert(0, ll)
        o = b + '.o'
        cmds.append(CXX + list(cxxflags) + ['-DVP_NATIVE', '-g1', '-c', '-o', o, h] + inc)
        objs.append(o)
    cmds.append(CXX + ['-c', '-DVP_NATIVE', '-o', w + '/nrt.o', VERIF + '/rt/nrt.cpp', '-I', VERIF + '/rt'])
    with ThreadPoolExecutor(NCPU) as ex:
        for (rc, out), c in zip(ex.map(lambda c: sh(c, cwd=w), cmds), cmds):
            if rc != 0:
                raise BuildViolation('the C++ compiler rejects the generated headers or their documented use', ' '.join(c) + '\n' + out)
    exe = w + '/native'
    rc, out = sh(['clang++', '-o', exe] + objs + [w + '/nrt.o', os.path.join(tdir, 'lib%s.a' % name), '-lpthread', '-ldl', '-lm'], cwd=w)
    if rc != 0:
        if 'undefined reference' in out or 'multiple definition' in out:
            raise BuildViolation('the generated C++ and Rust sides do not link', out)
        raise EnvError('native link failed:\n' + out[-3000:])
    return dict(lls=lls, exe=exe, dir=w)


def harness_names(ll):
    return re.findall(r'^define (?:dso_local )?void @(h_\w+)\(\)', open(ll).read(), re.M)


def _run_one(a):
    lls, name, limits = a
    import sx
    t = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.RLIM_INFINITY))
    except Exception:
        pass
    res = [None]

    def go():
        try:
            res[0] = sx.run_harness(lls, name, limits)
        except MemoryError:
            res[0] = dict(complete=False, error='out of memory', violations=[], samples=[], ends={}, stats={}, functions=[])
        except Exception as e:
            import traceback
            res[0] = dict(complete=False, error='engine: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-900:]), violations=[], samples=[], ends={}, stats={}, functions=[])
    import threading
    threading.stack_size(512 << 20)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    r = res[0]
    r['harness'] = name
    r['wall'] = time.time() - t
    return r


def run_symbolic(lls, names, limits, runner=_run_one):
    jobs = [(lls, n, limits) for n in names]
    with multiprocessing.get_context('fork').Pool(min(NCPU, max(1, len(jobs))), maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(runner, jobs, chunksize=1))


def native(exe, name, inputs, valgrind=False, timeout=60):
    cmd = [exe, name] + [str(x) for x in inputs]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--malloc-fill=aa', '--free-fill=dd'] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE='0'))
    except subprocess.TimeoutExpired:
        return dict(rc='timeout', out='', err='', obs=[], live=None, expect=False)
    out = p.stdout.decode('utf-8', 'replace')
    err = p.stderr.decode('utf-8', 'replace')
    m = re.search(r'^LIVE (-?\d+)', out, re.M)
    return dict(rc=p.returncode, out=out, err=err[-3000:], obs=[int(x) for x in re.findall(r'^OBS (\d+)', out, re.M)], live=int(m.group(1)) if m else None,
                expect='EXPECT-ABORT' in out, end='\nEND' in out or out.startswith('END'), allow_leak='ALLOW-LEAK' in out,
                chk=(re.findall(r'^CHK-FAIL (.*)$', out, re.M) or [None])[0])


CRASH = (-6, -11, -4, -5, -8, -7, 134, 139, 132)


def reproduces(v, r, rv):
    """does the native run r (or the valgrind run rv) show the violation v?"""
    def bad(x):
        if x is None:
            return None
        if x['rc'] == 'timeout':
            return 'does not terminate'
        if x['rc'] == 41:
            return 'assertion failed natively: %s' % x['chk']
        if x['rc'] == 42:
            return x['out'].strip().split('\n')[-1]
        if x['rc'] == 99:
            return 'valgrind reports a memory error'
        if x['rc'] in CRASH:
            if x['expect']:
                return None
            return 'process died (%s): %s' % (x['rc'], x['err'].strip().split('\n')[0:3])
        if x['rc'] == 0 and x['end']:
            if x['expect']:
                return 'the call returned although it had to abort'
            if x['live'] and not x['allow_leak']:
                return '%d heap blocks leaked' % x['live']
        return None
    b = bad(r)
    if b:
        return b
    return bad(rv)


def sample_matches(s, r):
    """native run agrees with the symbolic path"""
    if s['kind'] == 'expected_abort':
        return r['rc'] in CRASH and r['expect'], 'expected abort, native rc %s' % r['rc']
    if r['rc'] != 0 or not r['end']:
        return False, 'native rc %s %s %s' % (r['rc'], r['chk'] if 'chk' in r else '', r['err'][-300:])
    so = s['obs']
    if len(so) != len(r['obs']) or any(a is not None and a != b for a, b in zip(so, r['obs'])):
        return False, 'observations differ: %s vs %s' % (so, r['obs'])
    if r['live'] and not r['allow_leak']:
        return False, 'native leak'
    return True, ''


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p)).get('findings', [])
    return []


COMMON_ASSUMPTIONS = {
    'cpp': ['Rust glue, Rust std (built from rust-src) and the C++ side are executed as LLVM IR of rustc/clang at -O1 (x86-64 SysV); later optimisation and instruction selection are trusted',
            'memory allocation never fails; one thread', 'the C library functions memcpy/memmove/memset/memcmp/strlen and malloc/free/operator new/delete are modelled by the executor'],
    'jni': ['Rust glue and Rust std are executed as LLVM IR of rustc at -O1; the Java side as javac bytecode; JNIEnv functions are modelled from the JNI specification',
            'memory allocation never fails; one thread'],
    'python': ['Rust glue, the rust-cpython crates and Rust std are executed as LLVM IR of rustc at -O1 (panic = abort); the CPython C API is a model written from its documentation (rt/vpy.cpp); every sampled path and every counterexample is replayed on the real libpython 3.12',
               'memory allocation never fails; one thread holding the GIL'],
    'kernel': ['generator functions and Rust std are executed as LLVM IR of rustc at -O1', 'memory allocation never fails; one thread'],
}


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.results = []
        self.violations = []     # dicts: harness, vkind, msg, inputs, native
        self.errors = []
        self.validated = 0
        self.assumptions = []
        self.bounds = []
        self.samples = []
        self.build_violation = None

    def add_suite(self, results, replay, tag=''):
        """results of run_symbolic; replay(harness, inputs, valgrind)->native dict"""
        for r in results:
            r['tag'] = tag
        if not results:
            self.errors.append('%s: no harness' % tag)
        jobs = []
        for r in sorted(results, key=lambda r: r['harness']):
            self.results.append(r)
            if not r['complete'] and not r['violations']:
                self.errors.append('%s: %s' % (r['harness'], r['error']))
            ends = r['ends']
            if r['complete'] and not r['violations']:
                if not (ends.get('ok', 0) + ends.get('expected_abort', 0)):
                    self.errors.append('%s: vacuous, no path reaches the end (%s)' % (r['harness'], ends))
                elif r['stats'].get('chk', 0) == 0 and not ends.get('expected_abort'):
                    self.errors.append('%s: vacuous, no assertion reached' % r['harness'])
            for s in r['samples'][:8]:
                jobs.append((r['harness'], s))
        with ThreadPoolExecutor(NCPU) as ex:
            for (h, s), nat in zip(jobs, ex.map(lambda j: replay(j[0], j[1]['inputs'], False), jobs)):
                ok, why = sample_matches(s, nat)
                if ok:
                    self.validated += 1
                    if len(self.samples) < 12:
                        self.samples.append(dict(harness=h, inputs=s['inputs'], observed=s['obs'], outcome=s['kind'], native='agrees'))
                else:
                    self.errors.append('%s: the encoding and the native run disagree on %s: %s' % (h, s['inputs'], why))
        for r in results:
            for v in r['violations']:
                nat = replay(r['harness'], v['inputs'], False)
                why = reproduces(v, nat, None)
                rv = None
                if not why:
                    rv = replay(r['harness'], v['inputs'], True)
                    why = reproduces(v, nat, rv)
                v = dict(v, harness=r['harness'], native=why, variant=tag, tier=self.tier)
                if why:
                    self.violations.append(v)
                else:
                    self.errors.append('%s: counterexample %s (%s: %s) does not reproduce natively: rc %s valgrind %s' % (
                        r['harness'], v['inputs'], v['vkind'], v['msg'], nat['rc'], (rv or {}).get('err', '')[-800:]))

    def finish(self, explanation, extra=None):
        known = load_known()
        new, kn = [], []
        for v in self.violations:
            k = [f for f in known if f['property'] == self.pid and f['harness'] == v['harness'] and re.search(f['match'], '%s: %s' % (v['vkind'], v['msg']))]
            (kn if k else new).append((v, k[0] if k else None))
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        st = {}
        for r in self.results:
            for k, x in r['stats'].items():
                st[k] = st.get(k, 0) + x
        fns = sorted(set(f for r in self.results for f in r['functions']))
        cov = dict(states=st.get('paths', 0), transitions=st.get('branches', 0) + st.get('chk', 0), traces_validated_against_impl=self.validated, samples=self.samples[:8],
                   harnesses=len(self.results), paths_by_outcome={}, assertions_checked=st.get('chk', 0), assertions_discharged=st.get('chk_discharged', 0),
                   solver_queries=st.get('queries', 0), solver_seconds=round(st.get('solver_s', 0.0), 3), functions_encoded=len(fns),
                   functions_sample=[demangle(f) for f in pick_fns(fns)], bounds=self.bounds, explanation=explanation,
                   per_harness={r['tag'] + ':' + r['harness']: dict(paths=r['stats'].get('paths'), outcome=r['ends'], queries=r['stats'].get('queries'), seconds=round(r['wall'], 2)) for r in self.results})
        for r in self.results:
            for k, x in r['ends'].items():
                cov['paths_by_outcome'][k] = cov['paths_by_outcome'].get(k, 0) + x
        if extra:
            cov.update(extra)
        if st.get('real_jvm'):
            cov['replayed_on_real_jvm'] = st['real_jvm']
        if self.build_violation:
            cov['build_violation'] = str(self.build_violation)
        if self.errors:
            cov['errors'] = self.errors[:20]
        if not cov['samples']:
            cov['samples'] = [dict(note='no completed path')]
        nviol = len(new) + (1 if self.build_violation else 0)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=getattr(self, 'level', 'model_checking'), coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for f in known:
            if f['property'] == self.pid:
                hit = [v for v, k in kn if k is f]
                if hit:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
                else:
                    print('note: known finding no longer observed: %s' % f['what'])
        print('%s: %d harnesses, %d paths, %d solver queries (%.1f s), %d/%d assertions discharged, %d paths replayed natively, %.1f s' % (
            self.pid, len(self.results), st.get('paths', 0), st.get('queries', 0), st.get('solver_s', 0), st.get('chk_discharged', 0), st.get('chk', 0), self.validated, time.time() - self.t0) + (', %d on the real JVM' % st['real_jvm'] if st.get('real_jvm') else ''))
        if self.build_violation:
            p = os.path.join(EVID, 'replay', '%s-build.log' % self.pid)
            open(p, 'w').write(str(self.build_violation) + '\n' + self.build_violation.log)
            print(str(self.build_violation))
            print(self.build_violation.log[-1500:])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if new:
            for i, (v, _) in enumerate(new):
                p = os.path.join(EVID, 'replay', '%s-%d.json' % (self.pid, i))
                json.dump(dict(v, property=self.pid, how='python3-vt %s/check.py %s --replay %s' % (VERIF, self.pid, p)), open(p, 'w'), indent=1)
                print('%s: %s: %s; inputs %s; native replay: %s' % (v['harness'], v['vkind'], v['msg'], v['inputs'], v['native']))
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            for e in self.errors:
                print('error: ' + e)
            return 1
        if self.errors:
            for e in self.errors:
                print('error: ' + e)
            return 2
        return 0


def pick_fns(fns):
    return [f for f in fns][:400]


def demangle(n):
    m = re.match(r'_R', n)
    if m:
        parts = re.findall(r'(?<=\D)(\d+)_?([a-zA-Z_]\w*)', n)
        out = []
        for k, s in parts:
            k = int(k)
            if 1 < k <= len(s):
                out.append(s[:k])
        return '::'.join(out[-4:]) or n
    return n[:100]
