import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.ensure_vgen()
w = os.path.join(vp.BUILD, 'suite', 'setup')
os.makedirs(w + '/src', exist_ok=True)
open(w + '/src/lib.rs', 'w').write('pub fn x() {}\n')
vp.cargo_glue('vp_setup', w)
import kern
os.makedirs(vp.BUILD + '/setup', exist_ok=True)
k = vp.BUILD + '/setup/kern.rs'
open(k, 'w').write('#[no_mangle] pub extern "C" fn k_setup() {}\n')
kern.stage_kernel('setup', k, [])
print('ready')
