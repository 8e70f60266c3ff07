"""Kernel suites: the generator's own crate, copied from /repo/macroslib with one exporting module added, executed as IR."""
import glob, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import vp
from vp import VERIF, BUILD, REPO, sh, TRIPLE

TD = os.path.join(BUILD, 'kern-target')


BASE = ('alloc', 'core', 'std', 'hashbrown', 'memchr', 'std_detect', 'panic_abort', 'rustc_hash', 'smol_str')


def stage_kernel(sid, kern_rs, harness_files, cxxflags=(), crates=(), parent='lib'):
    w = os.path.join(BUILD, 'suite', sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    src = w + '/crate'
    os.makedirs(src)
    shutil.copytree(REPO + '/macroslib/src', src + '/src')
    for f in ('build.rs', 'Cargo.toml'):
        shutil.copy(REPO + '/macroslib/' + f, src + '/' + f)
    os.makedirs(src + '/tests/expectations')
    open(src + '/tests/expectations/tests.list', 'w').close()
    name = 'kern_' + sid.lower()
    t = open(src + '/Cargo.toml').read()
    t = re.sub(r'^name = "flapigen"', 'name = "%s"' % name, t, flags=re.M)
    t = re.sub(r'^readme = .*$', '', t, flags=re.M)
    t = ''.join(p for p in re.split(r'^(?=\[)', t, flags=re.M) if not p.startswith(('[dev-dependencies]', '[[test]]', '[[bench]]', '[lib]', '[profile', '[workspace')))
    t += '\n[workspace]\n[lib]\ncrate-type = ["staticlib"]\n[profile.dev]\npanic="abort"\nopt-level=1\ndebug=false\ncodegen-units=1\nincremental=false\n'
    open(src + '/Cargo.toml', 'w').write(t)
    shutil.copy(VERIF + '/gen/Cargo.lock', src + '/Cargo.lock')
    if isinstance(parent, str):
        parent = {parent: 'kern.rs'}
    for mod, kf in parent.items():
        name2 = 'vp_' + kf[:-3]
        shutil.copy(os.path.join(os.path.dirname(kern_rs), kf), src + '/src/%s.rs' % name2)
        with open(src + '/src/%s.rs' % mod, 'a') as f:
            f.write('\n#[path = "%s%s.rs"]\npub mod %s;\n' % ('../' * mod.count('/'), name2, name2))
    shutil.copy(VERIF + '/rt/lib_head.rs', src + '/src/vp_head.rs')
    with open(src + '/src/lib.rs', 'a') as f:
        f.write('\n#[allow(warnings)]\nmod vp_head;\n')
    t0 = time.time()
    rc, out = sh(['cargo', 'build', '--offline', '-Zbuild-std=core,alloc,std,panic_abort', '--target', TRIPLE], cwd=src,
                 env={'CARGO_TARGET_DIR': TD, 'RUSTUP_TOOLCHAIN': 'stable', 'RUSTC_BOOTSTRAP': '1',
                      'RUSTFLAGS': '--emit=llvm-ir -Zshare-generics=no -Cno-vectorize-loops -Cno-vectorize-slp -Cembed-bitcode=no --cap-lints allow'})
    if rc:
        raise vp.EnvError('cargo failed on the kernel crate:\n' + out[-4000:])
    d = os.path.join(TD, TRIPLE, 'debug', 'deps')
    best, rest = {}, []
    for p in glob.glob(d + '/*.ll'):
        m = re.fullmatch(r'(\w+)-([0-9a-f]{16})\.ll', os.path.basename(p))
        if not m or m.group(1) not in BASE + tuple(crates) + (name,):
            if m and not m.group(1).startswith('kern_'):
                rest.append(p)
            continue
        # the crate itself: only the newest; other crates: every version (symbols carry the crate's hash)
        k = m.group(1) if m.group(1) == name else m.group(0)
        if k not in best or os.path.getmtime(best[k]) < os.path.getmtime(p):
            best[k] = p
    if name not in best:
        raise vp.EnvError('no IR for ' + name)
    lls = [best.pop(name)] + sorted(best.values())
    inc = ['-I', w, '-I', VERIF + '/rt', '-I', VERIF + '/suites']
    objs, cmds = [], []
    for h in harness_files:
        b = w + '/' + os.path.basename(h)
        lls.insert(0, b + '.ll')
        objs.append(b + '.o')
        cmds.append(vp.CXX + list(cxxflags) + ['-fno-pic', '-S', '-emit-llvm', '-o', b + '.ll', h] + inc)
        cmds.append(vp.CXX + list(cxxflags) + ['-DVP_NATIVE', '-g1', '-c', '-o', b + '.o', h] + inc)
    cmds.append(vp.CXX + ['-c', '-DVP_NATIVE', '-o', w + '/nrt.o', VERIF + '/rt/nrt.cpp', '-I', VERIF + '/rt'])
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for (rc, out), c in zip(ex.map(lambda c: sh(c, cwd=w), cmds), cmds):
            if rc:
                raise vp.EnvError('compiling the harness: ' + ' '.join(c) + '\n' + out[-3000:])
    exe = w + '/native'
    rc, out = sh(['clang++', '-o', exe] + objs + [w + '/nrt.o', os.path.join(TD, TRIPLE, 'debug', 'lib%s.a' % name), '-lpthread', '-ldl', '-lm'], cwd=w)
    if rc:
        raise vp.EnvError('native link failed:\n' + out[-3000:])
    return dict(lls=lls, rest=sorted(rest), exe=exe, dir=w)


def kernel_suite(pid, cfg, tier, only=None):
    import check
    sd = os.path.join(VERIF, 'suites', pid)
    lim = dict(check.QUICK if tier == 'quick' else check.THOROUGH)
    lim.update(cfg.get('limits', {}))
    if tier == 'thorough':
        lim.update(cfg.get('thorough_limits', {}))
    tag = pid + cfg.get('tag', '')
    if only and only.get('variant') != tag:
        return
    flags = ['-DVP_THOROUGH'] if tier == 'thorough' else []
    files = [os.path.join(sd, f) for f in cfg.get('harness', ['harness.cpp'])]
    st = stage_kernel(tag, os.path.join(sd, 'kern.rs'), files, flags, cfg.get('crates', ()), cfg.get('parent', 'lib'))
    names = [n for f in files for n in vp.harness_names(st['dir'] + '/' + os.path.basename(f) + '.ll')]
    exe = st['exe']
    rep = (lambda h, i, vg: vp.native(exe, h, i, vg))
    if only:
        yield tag, None, rep
        return
    if os.environ.get('VP_ONLY'):
        names = [n for n in names if os.environ['VP_ONLY'] in n]
    res = vp.run_symbolic(st['lls'], names, lim)
    # a change may have made the code use a crate that is not on the list: run those again with everything
    again = [r['harness'] for r in res if 'external function' in (r.get('error') or '') and not r['violations']]
    if again and st['rest']:
        res = [r for r in res if r['harness'] not in again] + vp.run_symbolic(st['lls'] + st['rest'], again, lim)
    yield tag, res, rep
