import sys, subprocess
sys.path[:0] = ['/verif/tools', '/verif/units']
import importlib
m = importlib.import_module(sys.argv[1])
u = m.build()
txt, lmap, fns, counts = u.build()
open('/verif/build/%s.rs' % sys.argv[1], 'w').write(txt)
p = subprocess.run(['verus', '/verif/build/%s.rs' % sys.argv[1]] + sys.argv[2:], capture_output=True, text=True)
print((p.stdout + p.stderr)[:12000])
