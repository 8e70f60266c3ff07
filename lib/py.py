"""Python suites: the generated rust-cpython glue (with the cpython crates) executed as IR against a model of the CPython C API;
natively the same harness runs against the real libpython."""
import glob, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vp
from vp import VERIF, BUILD, REPO, sh

DEPS = 'cpython = { version = "=0.7.2", features = ["extension-module"] }'
CRATES = ('cpython', 'python3_sys', 'num_traits', 'libc')
PYINC = '/usr/include/python3.12'


def stage_py(sid, iface, harness_files, opts=(), cxxflags=()):
    w = os.path.join(BUILD, 'suite', sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/glue/src')
    vp.generate('python', iface, w + '/glue/src/out.rs', w + '/gen', opts)
    with open(w + '/glue/src/lib.rs', 'w') as f:
        f.write(open(VERIF + '/rt/lib_head.rs').read())
        f.write('include!("out.rs");\n')
    shutil.copy(VERIF + '/rt/py.lock', w + '/glue/Cargo.lock')
    name = 'glue_' + sid.lower()
    lls, tdir = vp.cargo_glue(name, w + '/glue', deps=DEPS, extra=CRATES)
    inc = ['-I', w, '-I', VERIF + '/rt', '-I', VERIF + '/suites', '-isystem', PYINC]
    model = w + '/vpy.ll'
    objs, cmds = [], [vp.CXX + ['-fno-pic', '-S', '-emit-llvm', '-o', model, VERIF + '/rt/vpy.cpp'] + inc]
    for h in harness_files:
        b = w + '/' + os.path.basename(h)
        cmds.append(vp.CXX + list(cxxflags) + ['-fno-pic', '-S', '-emit-llvm', '-o', b + '.ll', h] + inc)
        lls.insert(0, b + '.ll')
        objs.append(b + '.o')
        cmds.append(vp.CXX + list(cxxflags) + ['-DVP_NATIVE', '-g1', '-c', '-o', b + '.o', h] + inc)
    cmds.append(vp.CXX + ['-c', '-DVP_NATIVE', '-o', w + '/nrt.o', VERIF + '/rt/nrt.cpp', '-I', VERIF + '/rt'])
    cmds.append(vp.CXX + ['-c', '-DVP_NATIVE', '-o', w + '/vpyreal.o', VERIF + '/rt/vpyreal.cpp'] + inc)
    lls.insert(1, model)
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for (rc, out), c in zip(ex.map(lambda c: sh(c, cwd=w), cmds), cmds):
            if rc:
                raise vp.EnvError('compiling the harness: ' + ' '.join(c) + '\n' + out[-3000:])
    exe = w + '/native'
    rc, out = sh(['clang++', '-o', exe] + objs + [w + '/nrt.o', w + '/vpyreal.o', os.path.join(tdir, 'lib%s.a' % name), '-lpython3.12', '-lpthread', '-ldl', '-lm'], cwd=w)
    if rc:
        if 'undefined reference' in out or 'multiple definition' in out:
            raise vp.BuildViolation('the generated module does not link', out)
        raise vp.EnvError('native link failed:\n' + out[-3000:])
    return dict(lls=lls, exe=exe, dir=w)


def py_suite(pid, cfg, tier, only=None):
    import check
    sd = os.path.join(VERIF, 'suites', pid)
    lim = dict(check.QUICK if tier == 'quick' else check.THOROUGH)
    lim.update(cfg.get('limits', {}))
    if tier == 'thorough':
        lim.update(cfg.get('thorough_limits', {}))
    tag = pid + cfg.get('tag', '')
    if only and only.get('variant') != tag:
        return
    flags = ['-DVP_THOROUGH'] if tier == 'thorough' else []
    files = [os.path.join(sd, f) for f in cfg.get('harness', ['harness.cpp'])]
    st = stage_py(tag, os.path.join(sd, cfg.get('iface', 'iface.rs.in')), files, cfg.get('opts', []), flags)
    names = [n for f in files for n in vp.harness_names(st['dir'] + '/' + os.path.basename(f) + '.ll')]
    exe = st['exe']
    rep = (lambda h, i, vg: vp.native(exe, h, i, vg, 60 if vg else 12))
    if only:
        yield tag, None, rep
        return
    if os.environ.get('VP_ONLY'):
        names = [n for n in names if os.environ['VP_ONLY'] in n]
    yield tag, vp.run_symbolic(st['lls'], names, lim), rep
