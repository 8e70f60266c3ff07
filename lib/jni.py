"""JNI suites: generated Java classes and a Java harness become C++ (j2c), run against a modelled VM together with the Rust glue."""
import glob, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vp, j2c
from vp import VERIF, BUILD, sh

JDK_INC = None


def jdk():
    j = os.environ.get('JAVA_HOME') or '/usr/lib/jvm/java-17-openjdk-amd64'
    if not os.path.exists(j + '/include/jni.h'):
        c = sorted(glob.glob('/usr/lib/jvm/*/include/jni.h'))
        if not c:
            raise vp.EnvError('no jni.h')
        j = os.path.dirname(os.path.dirname(c[0]))
    return j


def minijdk():
    """class files of the modelled library"""
    h = vp.tree_hash([VERIF + '/rt/jdk'])
    d = os.path.join(BUILD, 'minijdk-' + h)
    if not os.path.exists(d + '/.ok'):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        fs = sorted(os.path.join(a, f) for a, _, ff in os.walk(VERIF + '/rt/jdk') for f in ff if f.endswith('.java'))
        rc, out = sh(['javac', '-encoding', 'UTF-8', '-XDstringConcat=inline', '--patch-module', 'java.base=' + VERIF + '/rt/jdk', '-nowarn', '-d', d] + fs)
        if rc:
            raise vp.EnvError('javac (library model): ' + out[-2000:])
        open(d + '/.ok', 'w').close()
    return d


def classes(d):
    return sorted(os.path.join(a, f) for a, _, ff in os.walk(d) for f in ff if f.endswith('.class'))


def annotations(w, srcs):
    """null annotations javac recorded for the generated classes, as constants of a class Ann: 0 none, 1 NonNull, 2 Nullable, 3 both"""
    d = w + '/annclasses'
    rc, out = sh(['javac', '-encoding', 'UTF-8', '-nowarn', '-d', d, VERIF + '/rt/java/vp/V.java'] + glob.glob(VERIF + '/rt/java/vp/ann/*.java') + srcs, env={'LC_ALL': 'C.UTF-8'})
    if rc:
        raise vp.BuildViolation('javac rejects the generated classes', out)
    vals = {}
    for f in classes(d):
        if '/vp/' in f[len(d):]:
            continue
        cn = os.path.basename(f)[:-6]
        rc, out = sh(['javap', '-v', '-p', f])
        if rc:
            raise vp.EnvError('javap: ' + out[-2000:])
        cur = part = pn = None
        for l in out.split('\n'):
            m = re.match(r'  (?!private)[^ ].*?([\w.$]+)\((.*)\)(?: throws .*)?;$', l)
            if m or re.match(r'  \S', l):
                cur = part = None
                if m:
                    n = m.group(1).split('.')[-1]
                    cur = '%s_%s' % (cn, n)
                    vals.setdefault(cur, 0)
                    for i in range(len([x for x in m.group(2).split(',') if x.strip()])):
                        vals.setdefault('%s_%d' % (cur, i), 0)
                continue
            if cur is None:
                continue
            m = re.match(r'    (\w+):', l)
            if m:
                part = {'RuntimeInvisibleAnnotations': 'ret', 'RuntimeInvisibleParameterAnnotations': 'par', 'RuntimeVisibleAnnotations': 'ret', 'RuntimeVisibleParameterAnnotations': 'par'}.get(m.group(1))
                pn = None
                continue
            m = re.match(r'      parameter (\d+):', l)
            if m:
                pn = int(m.group(1))
            m = re.match(r' +vp\.ann\.(NonNull|Nullable)$', l)
            if m and part:
                k = cur if part == 'ret' else '%s_%d' % (cur, pn)
                vals[k] = vals.get(k, 0) | (1 if m.group(1) == 'NonNull' else 2)
    p = w + '/Ann.java'
    with open(p, 'w') as f:
        f.write('package com.example.rust;\nfinal class Ann {\n' + ''.join('    static int %s() { return %d; }\n' % x for x in sorted(vals.items())) + '}\n')
    return p


def stage_jni(sid, iface, harness, opts=(), cxxflags=(), extra_java=(), deps='', ann=False):
    w = os.path.join(BUILD, 'suite', sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/glue/src')
    pkg = ([o[8:] for o in opts if o.startswith('package=')] or ['com.example.rust'])[0]
    jd = w + '/java/' + pkg.replace('.', '/')
    vp.generate('java', iface, w + '/glue/src/out.rs', jd, opts)
    with open(w + '/glue/src/lib.rs', 'w') as f:
        f.write(open(VERIF + '/rt/lib_head.rs').read())
        f.write(open(VERIF + '/rt/jni_head.rs').read())
        f.write('include!("out.rs");\n')
    shutil.copy(VERIF + '/rt/jni_c_header.rs', w + '/glue/src/jni_c_header.rs')
    name = 'glue_' + re.sub(r'[^a-z0-9]', '_', sid.lower())
    lls, tdir = vp.cargo_glue(name, w + '/glue', deps=deps)
    md = minijdk()
    srcs = sorted(os.path.join(a, f) for a, _, ff in os.walk(w + '/java') for f in ff if f.endswith('.java'))
    hs = []
    for h in list(harness) + list(extra_java):
        hs.append(h)
    cls = w + '/classes'
    os.makedirs(cls)
    if ann:
        hs.append(annotations(w, srcs))
    rc, out = sh(['javac', '-encoding', 'UTF-8', '-g:lines,source', '-XDstringConcat=inline', '-nowarn', '-d', cls, VERIF + '/rt/java/vp/V.java'] + glob.glob(VERIF + '/rt/java/vp/ann/*.java') + srcs + hs, env={'LC_ALL': 'C.UTF-8'})
    if rc:
        raise vp.BuildViolation('javac rejects the generated classes or their documented use', out)
    glue = j2c.glue_symbols([l for l in lls if os.path.basename(l).startswith(name + '-')][0])
    mini = classes(md)
    native_impl = set(j2c.Class(open(f, 'rb').read()).name for f in mini) | {'vp/V'}
    world = j2c.World([c for c in classes(cls) if '/vp/ann/' not in c] + mini, native_impl, glue)
    try:
        text = world.emit()
    except j2c.J2CError as e:
        raise vp.EnvError('Java translation: %s' % e)
    names, owner = [], {}
    for n, c in sorted(world.cls.items()):
        for m in c.methods:
            if m.name.startswith('h_') and m.desc == '()V' and m.flags & j2c.ACC_STATIC:
                names.append(m.name)
                owner['h_' + m.name[2:]] = n.replace('/', '.')
                text += 'HARNESS(%s) { jvm_run(%s); }\n' % (m.name[2:], world.mn(m))
    open(w + '/java.cpp', 'w').write(text)
    J = jdk()
    inc = ['-I', VERIF + '/rt', '-I', J + '/include', '-I', J + '/include/linux']
    cmds, objs = [], []
    for s in (w + '/java.cpp', VERIF + '/rt/jvm.cpp'):
        b = w + '/' + os.path.basename(s)
        lls.insert(0, b + '.ll')
        objs.append(b + '.o')
        cmds.append(vp.CXX + list(cxxflags) + ['-fno-pic', '-S', '-emit-llvm', '-o', b + '.ll', s] + inc)
        cmds.append(vp.CXX + list(cxxflags) + ['-DVP_NATIVE', '-g1', '-c', '-o', b + '.o', s] + inc)
    cmds.append(vp.CXX + ['-c', '-DVP_NATIVE', '-o', w + '/nrt.o', VERIF + '/rt/nrt.cpp', '-I', VERIF + '/rt'])
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for (rc, out), c in zip(ex.map(lambda c: sh(c, cwd=w), cmds), cmds):
            if rc:
                raise vp.EnvError('compiling the translated Java code: ' + ' '.join(c) + '\n' + out[-3000:])
    exe = w + '/native'
    lib = w + '/libvpreal.so'
    rc, out = sh(['clang++', '-shared', '-fPIC', '-O1', '-o', lib, VERIF + '/rt/jvmreal.cpp'] + inc[2:] + ['-Wl,--whole-archive', os.path.join(tdir, 'lib%s.a' % name), '-Wl,--no-whole-archive', '-Wl,--version-script=' + VERIF + '/rt/jvmreal.map', '-Wl,--allow-multiple-definition', '-lpthread', '-ldl', '-lm'], cwd=w)
    if rc:
        raise vp.EnvError('linking for the real JVM failed:\n' + out[-3000:])
    rc, out = sh(['javac', '-encoding', 'UTF-8', '-nowarn', '-d', w + '/real', '-cp', cls, VERIF + '/rt/java/vp/RealMain.java'])
    if rc:
        raise vp.EnvError('javac: ' + out[-2000:])
    rc, out = sh(['clang++', '-o', exe] + objs + [w + '/nrt.o', os.path.join(tdir, 'lib%s.a' % name), '-lpthread', '-ldl', '-lm'], cwd=w)
    if rc:
        raise vp.EnvError('native link failed:\n' + out[-3000:])
    return dict(lls=lls, exe=exe, dir=w, names=names, owner=owner, world=world)


def real_jvm(st, runs, fresh=False):
    """replay [(harness, sample)] on the installed JVM; returns list of (ok, why)"""
    def batch(rs):
        f = os.path.join(st['dir'], 'runs-%d.txt' % id(rs))
        with open(f, 'w') as fh:
            for h, s in rs:
                fh.write(' '.join([st['owner'][h], h] + [str(x) for x in s['inputs']]) + '\n')
        rc, out = sh(['java', '-Xcheck:jni', '-XX:-CreateCoredumpOnCrash', '-XX:ErrorFile=' + st['dir'] + '/hs_err_%p.log', '-Xmx256m', '-XX:+UseSerialGC', '-cp', st['dir'] + '/classes:' + st['dir'] + '/real', 'vp.RealMain', st['dir'] + '/libvpreal.so', f], cwd=st['dir'], timeout=300)
        parts = re.split(r'^RUN (\w+)\n', out, flags=re.M)
        o = []
        for i, (h, s) in enumerate(rs):
            body = parts[2 * i + 2] if 2 * i + 2 < len(parts) else ''
            obs = [int(x) for x in re.findall(r'^OBS (\d+)', body, re.M)]
            if s['kind'] == 'expected_abort':
                ok = 'EXPECT-ABORT' in body and 'DONE' not in body
                o.append((ok, 'real JVM does not abort' if not ok else ''))
                continue
            bad = 'CHK-FAIL' in body or 'UNCAUGHT' in body or 'ASSUME-FALSE' in body or 'FATAL ERROR' in body or 'DONE' not in body
            if bad:
                o.append((False, 'real JVM: ' + body[-400:]))
            elif len(obs) != len(s['obs']) or any(a is not None and a != b for a, b in zip(s['obs'], obs)):
                o.append((False, 'real JVM observations differ: %s vs %s' % (s['obs'], obs)))
            else:
                o.append((True, ''))
        return o
    oks = [r for r in runs if r[1]['kind'] != 'expected_abort']
    ab = [r for r in runs if r[1]['kind'] == 'expected_abort']
    jobs = ([[r] for r in oks] if fresh else [oks[i::4] for i in range(4) if oks[i::4]]) + [[r] for r in ab]
    with ThreadPoolExecutor(vp.NCPU) as ex:
        res = list(ex.map(batch, jobs))
    return [(h, s, ok, why) for j, rs in zip(jobs, res) for (h, s), (ok, why) in zip(j, rs)]


def jni_suite(pid, cfg, tier, only=None):
    import check
    sd = os.path.join(VERIF, 'suites', pid)
    lim = dict(check.QUICK if tier == 'quick' else check.THOROUGH)
    lim.update(cfg.get('limits', {}))
    if tier == 'thorough':
        lim.update(cfg.get('thorough_limits', {}))
    for var in cfg.get('variants', [{}]):
        if var.get('thorough_only') and tier != 'thorough':
            continue
        tag = pid + var.get('tag', '')
        if only and only.get('variant') != tag:
            continue
        files = [os.path.join(sd, f) for f in var.get('harness', cfg.get('harness', ['H.java']))]
        files += [os.path.join(sd, f) for f in var.get('thorough', cfg.get('thorough', []))] if tier == 'thorough' else []
        st = stage_jni(tag, os.path.join(sd, var.get('iface', cfg.get('iface', 'iface.rs.in'))), files, var.get('opts', cfg.get('opts', [])), var.get('cxxflags', []), ann=var.get('ann', cfg.get('ann', False)))
        names = st['names']
        exe = st['exe']
        rep = (lambda h, i, vg, exe=exe: vp.native(exe, h, i, vg))
        if only:
            yield tag, None, rep
            continue
        if os.environ.get('VP_ONLY'):
            names = [n for n in names if os.environ['VP_ONLY'] in n]
        res = vp.run_symbolic(st['lls'], names, lim)
        runs = []
        for r in res:
            ok = [s for s in r['samples'] if s['kind'] != 'expected_abort']
            runs += [(r['harness'], s) for s in ok[:4]]
        runs += [(r['harness'], s) for r in res for s in r['samples'] if s['kind'] == 'expected_abort'][:4]
        if runs:
            n = 0
            for h, s, ok, why in real_jvm(st, runs, cfg.get('fresh_jvm', False)):
                if ok:
                    n += 1
                else:
                    for r in res:
                        if r['harness'] == h and not r['violations'] and r['complete']:
                            r['complete'] = False
                            r['error'] = 'the model and the installed JVM disagree on %s: %s' % (s['inputs'], why)
            for r in res[:1]:
                r['stats']['real_jvm'] = n
        yield tag, res, rep
