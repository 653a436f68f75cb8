"""Runs the concrete oracles of one property against the real code (QV_REPO, default /repo)."""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('QV_REPO', '/repo'))
warnings.simplefilter('ignore')


def main():
    a = sys.argv[1:]
    prop = a[0]

    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    seed = int(opt('--seed', '1'))
    tier = opt('--tier', 'quick')
    scale = float(opt('--scale', '1'))
    out = opt('--out', None)
    case = opt('--case', None)
    budget = {'quick': 100.0, 'search': 240.0, 'thorough': 900.0}.get(tier, 100.0)
    res = {'cases': 0, 'failures': [], 'oracles': {}, 'samples': []}
    seen = set()
    try:
        import numpy as np
        import common
        np.seterr(all='ignore')
        mod = importlib.import_module(prop.lower())
    except Exception:
        res['error'] = 'import failed: ' + traceback.format_exc()[-1500:]
        res['import_failed'] = True
        if out:
            json.dump(res, open(out, 'w'))
        else:
            print(res['error'])
        return 1
    ors = mod.ORACLES
    if case:
        nm, k, sd, t = case.split(':')
        ors = [o for o in ors if o['name'] == nm]
        f = one(ors[0], int(k), int(sd), t, np)
        print(json.dumps(f, indent=1, default=str) if f else 'passes')
        return 1 if f else 0
    t0 = time.time()
    per = budget / max(1, len(ors))
    for o in ors:
        n = o['n'] if tier == 'quick' else int(o['n'] * (scale if tier == 'search' else 12))
        t1 = time.time()
        done = 0
        for k in range(n):
            if time.time() - t1 > max(per, 0.5 * (budget - (t1 - t0))) and done >= 1:
                break
            f = one(o, k, seed, tier, np, seen, res)
            done += 1
            res['cases'] += 1
            if f:
                res['failures'].append(f)
                if sum(1 for x in res['failures'] if x['oracle'] == o['name']) >= 3:
                    break
        res['oracles'][o['name']] = done
        if res['failures'] and '--stop' in a:
            break
    res['distinct'] = len(seen)
    res['wall'] = time.time() - t0
    if out:
        tmp = out + '.t'
        json.dump(res, open(tmp, 'w'), default=str)
        os.replace(tmp, out)
    return 0


def one(o, k, seed, tier, np, seen=None, res=None):
    h = hashlib.sha256(('%s/%d/%d' % (o['name'], k, seed)).encode()).digest()
    rng = np.random.RandomState(int.from_bytes(h[:4], 'big'))
    log = []
    import common
    common.LOG[0] = log
    msg = None
    key = None
    so = sys.stdout
    devnull = open(os.devnull, 'w')
    try:
        sys.stdout = devnull
        o['fn'](rng, k)
    except common.Bad as e:
        msg = str(e)
        key = e.key
    except Exception:
        msg = 'exception: ' + traceback.format_exc()[-1800:]
    finally:
        sys.stdout = so
        devnull.close()
    d = ' '.join(log)[:1500]
    if seen is not None:
        seen.add((o['name'], d or k))
        if res is not None and len(res['samples']) < 6 and k == 0:
            res['samples'].append('%s: %s' % (o['name'], d[:300]))
    if msg is None:
        return None
    return {'oracle': o['name'], 'k': k, 'seed': seed, 'tier': tier, 'message': msg[:2500], 'input': d, 'key': key}


if __name__ == '__main__':
    sys.exit(main())
