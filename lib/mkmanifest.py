import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {
 'T02': 'Not applicable: the quantifier ranges over all interface descriptions and the oracle is rustc/clang/javac; neither can be encoded for a solver. Every other check does compile the generator output for its own interface and reports a rejection as a violation of its property.',
}
NOTYET = 'Check not built (yet): see DESIGN.md.'
checks, na = [], []
for p in props:
    sj = os.path.join(here, 'suites', p['id'], 'suite.json')
    if os.path.exists(sj):
        c = json.load(open(sj))
        checks.append(dict(property=p['id'], quick_cmd='./check.py ' + p['id'], thorough_cmd='env VERIF_TIER=thorough ./check.py ' + p['id'],
                           technique='path-complete symbolic execution of the ' + {'cpp': 'generated C++ and Rust glue (LLVM IR)', 'python': 'generated Python glue, rust-cpython crates and a CPython C-API model (LLVM IR)', 'jni': 'generated Java (bytecode) and Rust glue (LLVM IR)', 'kernel': "generator's own functions (LLVM IR)"}[c['kind']] + ', decided by Z3; counterexamples replayed natively',
                           level='model_checking',
                           level_note=c.get('level_note', 'Every value within the stated bounds, every path explored, every assertion discharged by the solver; trusts rustc/clang down to -O1 IR, the executor (cross-checked by native replay of sampled paths) and Z3; allocation never fails, single thread.')))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], NOTYET)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Checks regenerate the encoding from /repo on every run: the generator of the current tree is built, the interface of the suite expanded, the output compiled to LLVM IR / bytecode and executed symbolically. Exit 2 = the check could not be carried out.')
hk = os.path.join(here, 'lib', 'hooks.json')
if os.path.exists(hk):
    m['hooks'] = json.load(open(hk))
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
