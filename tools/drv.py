"""build and run one driver: tools/drv.py C09 [cases] [seed]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from llvc import run, build
from contracts import props
import time
t = time.time()
build.scratch()
d = run.Driver(sys.argv[1], props.PROPS[sys.argv[1]])
ok, n, txt = d.run(int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[2]) if len(sys.argv) > 2 else props.PROPS[sys.argv[1]]['cases'])
print(ok, n, "" if ok else txt[:3000], '%.1f s' % (time.time() - t))
