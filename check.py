#!/usr/bin/env python3-vt
"""check.py <property> [--replay FILE] : decide one property of the current /repo tree (VERIF_TIER=quick|thorough)."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import vp

QUICK = dict(seconds=400, deadline=time.time() + 740, paths=200000, steps=4000000, query_ms=20000, samples=6)   # a whole quick check has to end within 900 s
THOROUGH = dict(seconds=1500, paths=400000, steps=20000000, query_ms=120000, samples=12)


def cpp_suite(pid, cfg, tier, only=None):
    """yields (results, replay) per configuration variant"""
    sd = os.path.join(HERE, 'suites', pid)
    lim = dict(QUICK if tier == 'quick' else THOROUGH)
    lim.update(cfg.get('limits', {}))
    if tier == 'thorough':
        lim.update(cfg.get('thorough_limits', {}))
    for var in cfg.get('variants', [{}]):
        if var.get('thorough_only') and tier != 'thorough':
            continue
        tag = pid + var.get('tag', '')
        if only and only.get('variant') != tag:
            continue
        flags = list(var.get('cxxflags', [])) + (['-DVP_THOROUGH'] if tier == 'thorough' else [])
        files = [os.path.join(sd, f) for f in var.get('harness', cfg.get('harness', ['harness.cpp']))]
        st = vp.stage_cpp(tag, os.path.join(sd, var.get('iface', cfg.get('iface', 'iface.rs.in'))), files, var.get('opts', []), flags)
        names = [n for f in files for n in vp.harness_names(st['dir'] + '/' + os.path.basename(f) + '.ll')]
        exe = st['exe']
        if only:
            yield tag, None, (lambda h, i, vg: vp.native(exe, h, i, vg))
            continue
        if os.environ.get('VP_ONLY'):
            names = [n for n in names if os.environ['VP_ONLY'] in n]
        yield tag, vp.run_symbolic(st['lls'], names, lim), (lambda h, i, vg: vp.native(exe, h, i, vg))


def kinds():
    k = {'cpp': cpp_suite}
    try:
        import jni
        k['jni'] = jni.jni_suite
    except ImportError:
        pass
    import py
    k['python'] = py.py_suite
    try:
        import kern
        k['kernel'] = kern.kernel_suite
    except ImportError:
        pass
    return k


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(os.path.join(HERE, 'suites', pid, 'suite.json')))

    def run(pid, cfg, tier, only=None):
        for sub in [cfg] + cfg.get('also', []):
            yield from kinds()[sub['kind']](pid, sub, tier, only)
    if '--replay' in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        for tag, _, rep in run(pid, cfg, v.get('tier', tier), only=v):
            for vg in (False, True):
                r = rep(v['harness'], v['inputs'], vg)
                why = vp.reproduces(v, r, None)
                print(r['out'], r['err'])
                if why:
                    print('REPRODUCED: %s: %s' % (v['harness'], why))
                    return 1
        print('not reproduced')
        return 0
    rep = vp.Report(pid, tier, seed)
    rep.assumptions = cfg.get('assumptions', []) + vp.COMMON_ASSUMPTIONS.get(cfg['kind'], [])
    rep.bounds = cfg.get('bounds', [])
    rep.level = cfg.get('level', 'model_checking')
    try:
        for tag, results, replay in run(pid, cfg, tier):
            rep.add_suite(results, replay, tag)
    except vp.BuildViolation as e:
        rep.build_violation = e
    except vp.EnvError as e:
        rep.errors.append(str(e))
    return rep.finish(cfg.get('explanation', ''))


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
