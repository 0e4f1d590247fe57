"""run matching tasks in parallel: par.py <module> <regex> [workers]"""
import sys, re, importlib, multiprocessing as mp, time
sys.path.insert(0, '/verif')
from llvc import api
importlib.import_module('contracts.' + sys.argv[1])
ts = [t for t in api.TASKS if re.search(sys.argv[2], t.prop + ' ' + t.name)]


def go(i):
    t = ts[i]; r = api.run_task(t, log=None, timeout=6000)
    bad = [o for o in r['obligations'] if o['status'] != 'proved']
    return '%s %s %s obls %d bad %d wall %.1f %s' % (t.prop, t.name, r['status'], len(r['obligations']), len(bad), r['wall'], r['error'] or '') + ''.join('\n    ' + o['name'][-150:] + ' ' + o['status'] for o in bad[:6])


if __name__ == '__main__':
    t0 = time.time()
    with mp.Pool(int(sys.argv[3]) if len(sys.argv) > 3 else 7, maxtasksperchild=1) as p:
        for x in p.imap_unordered(go, range(len(ts)), 1): print(x, flush=True)
    print('total', len(ts), 'tasks %.0f s' % (time.time() - t0))
