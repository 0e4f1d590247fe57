import sys, re
sys.path.insert(0, '/verif')
import importlib
from llvc import api
mod, pat = sys.argv[1], sys.argv[2]
importlib.import_module('contracts.' + mod)
for t in api.TASKS:
    if re.search(pat, t.prop + " " + t.name):
        r = api.run_task(t, log=sys.stderr if '-q' not in sys.argv else None, timeout=6000)
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        print(t.prop, t.name, r['status'], 'obls', len(r['obligations']), 'bad', len(bad), 'wall %.1f solver %.1f q %d' % (r['wall'], r.get('solver_time', 0), r.get('queries', 0)), r['error'] or '')
        for o in bad: print('   ', o['name'], o['status'], o['detail'][:300])
        if '-v' in sys.argv:
            print(r['inlined'], r['externs'], r['assumptions'], r['unproved_term'])
            for o in r['obligations']: print('    ', o['name'], o['status'], o['backend'], o['time'])
