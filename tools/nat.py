"""native run of every harness of a property (sanity of the replay side): nat.py PROP [runs]"""
import sys, os, glob, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vcgen import driver as D
prop = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 2000
tmp = tempfile.mkdtemp()
for f in sorted(glob.glob(D.ROOT + '/specs/' + prop + '.cpp') + glob.glob(D.ROOT + '/specs/' + prop + '_*.cpp')):
    s = D.Suite(f)
    if s.opts.get('mode') == 'native': continue
    exe, msg = D.native(s, tmp)
    if not exe: print('NATIVE COMPILE', msg[-3000:]); continue
    mod, t = D.extract(s, tmp)
    bad = 0
    for h in D.harnesses(mod, 'thorough'):
        b, out = D.fuzz_native(exe, h, 1, n, 20)
        if b: print('FAIL', h, out[-1500:]); bad += 1
        elif '-v' in sys.argv: print(h, out.strip()[-100:])
    print(s.name, 'bad', bad)
shutil.rmtree(tmp)
