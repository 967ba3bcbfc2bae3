"""Writes ecv/invariants.json: the loop invariants that full inference finds for the slow functions.
They only save time: every run proves them again and falls back to inference when one fails.
usage: mkinv.py [function ...]   (no argument: every function whose generation takes > 4 s)
"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, props, front, sym
from stubs import STUBS
import multiprocessing as mp


def one(j):
    (modn, tab, src, defs, f) = j
    try:
        K = getattr(__import__(modn), tab)
        t = time.time()
        exs = K[f].verify(front.unit(src, list(defs), []), K, STUBS, dict(timeout=3000))
        dt = time.time() - t
        ok = run.discharge_all([o for ex in exs for o in ex.obs], 15000)
        bad = [(o.line, o.name) for ex in exs for o in ex.obs if o.res != 'proved']
        return j, dt, ok, bad[:5], {ex.cachekey: getattr(ex, 'kept', {}) for ex in exs}
    except Exception as e:
        return j, 0, False, repr(e), {}


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    fn = os.path.join(run.VERIF, 'ecv', 'invariants.json')
    try:
        db = json.load(open(fn))
    except OSError:
        db = {}
    jobs = {}
    for P in props.PROPS.values():
        for (modn, tab, src, defs, fns) in P['functions']:
            for f in fns:
                if len(sys.argv) == 1 or f in sys.argv[1:]:
                    jobs[(modn, tab, src, tuple(defs), f)] = 1
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for j, dt, ok, bad, inv in p.imap_unordered(one, list(jobs), chunksize=1):
            print('%-40s gen %.1fs %s %s' % (j[1] + ':' + j[4], dt, 'ok' if ok else 'NOT PROVED', '' if ok else bad), flush=True)
            k = '%s:%s' % (j[1], j[4])
            if ok and (dt > 4 or len(sys.argv) > 1):
                db[k] = inv
            elif len(sys.argv) == 1:
                db.pop(k, None)
    json.dump(db, open(fn, 'w'), indent=0, sort_keys=True)
