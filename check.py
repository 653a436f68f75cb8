#!/usr/bin/env python3
"""check.py <property> [--unit SUBSTR] [-v]

Decides one property of /repo: generates the proof obligations from the current source, discharges them, and runs the
bounded run-time conformance replay of the same contract on the real code.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('QV_REPO', '/repo')
PY_REAL = '/opt/venv/bin/python'


def replay_env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=REPO,
             OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2', PYTHONWARNINGS='ignore')
    e.pop('PYTHONHOME', None)
    d = '/opt/vp/mplconfig'
    e['MPLCONFIGDIR'] = os.environ.get('MPLCONFIGDIR', d)
    return e


def start_replay(prop, seed, tier, scale, out, extra=()):
    cmd = [PY_REAL, os.path.join(HERE, 'replay', 'run.py'), prop, '--seed', str(seed), '--tier', tier, '--scale', str(scale),
           '--out', out] + list(extra)
    return subprocess.Popen(cmd, env=replay_env(), cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def finish_replay(p, out, limit):
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
    try:
        r = json.load(open(out))
    except Exception:
        r = {'error': 'replay gave no result: %s' % (err or b'').decode(errors='replace')[-1500:], 'cases': 0, 'failures': [], 'oracles': {}}
    return r


def main():
    args = sys.argv[1:]
    prop = args[0]
    only = args[args.index('--unit') + 1] if '--unit' in args else None
    verbose = '-v' in args
    noreplay = '--no-replay' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', 'tmp')
    os.makedirs(tmp, exist_ok=True)
    rout = os.path.join(tmp, '%s.replay.json' % prop)
    if os.path.exists(rout):
        os.unlink(rout)
    rp = None
    if not noreplay and not only:
        rp = start_replay(prop, seed, tier, 1.0, rout)

    from qv import framework as F
    info = importlib.import_module('contracts.%s' % prop.lower())
    known = load_known(prop)

    def settled():
        if rp is None or rp.poll() is None or not os.path.exists(rout):
            return False
        try:
            return any(not is_known(f, known) for f in json.load(open(rout))['failures'])
        except Exception:
            return False
    res = F.run_all(prop, 1.0 if tier == 'quick' else 4.0, only=only, stop=settled)

    nob = ndis = 0
    failed, undecided, decided = [], [], []
    called, assumed, wd = set(), set(), set()
    z3n, z3t = 0, 0.0
    reach = 0
    for r in res:
        called |= set(r['called'])
        assumed |= set(r['assumed'])
        wd |= set(r['wd'])
        z3n += r['stats'].get('z3', 0)
        z3t += r['stats'].get('z3_time', 0.0)
        reach += r['reach']
        bad = [i for i in r['items'] if not i['ok']]
        nob += len(r['items'])
        ndis += len(r['items']) - len(bad)
        if bad:
            failed += bad
        if r['status'] != 'done':
            undecided.append('%s: %s (%s)' % (r['unit'], r['status'], r['error']))
            nob += 1
        elif not bad:
            decided.append(r['unit'])
        if verbose:
            print('%-60s %-11s ob=%d bad=%d paths=%d reach=%d %.1fs %d MB %s' % (r['unit'], r['status'], len(r['items']), len(bad), r['paths'], r['reach'], r['wall'], r.get('rss', 0), r['error'][:300]))
            for i in bad:
                print('    FAILED %s\n        %s' % (i['name'], i['detail'][:1500]))
    if only or noreplay:
        return 1 if failed else 0

    lim = 300 if tier == 'quick' else 1500
    rr = finish_replay(rp, rout, lim)
    if verbose:
        print('replay: %d cases, %d failures %s' % (rr['cases'], len(rr['failures']), rr.get('error', '')))
        for n, c in sorted(rr.get('oracles', {}).items()):
            print('    %-50s %s' % (n, c))
        for f in rr['failures'][:6]:
            print('    FAIL', f['oracle'], f['k'], f['message'][:800])
    fresh = [f for f in rr['failures'] if not is_known(f, known)]
    hits = set(k['id'] for f in rr['failures'] for k in known if match(f, k))
    if failed and not fresh:
        # look harder for a failing input
        extra_out = os.path.join(tmp, '%s.replay2.json' % prop)
        if os.path.exists(extra_out):
            os.unlink(extra_out)
        p2 = start_replay(prop, seed + 7919, 'search', 6.0, extra_out)
        r2 = finish_replay(p2, extra_out, 330)
        rr['cases'] += r2['cases']
        fresh = [f for f in r2['failures'] if not is_known(f, known)]
    viol = 0
    line = None
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    if fresh:
        viol = len(fresh)
        f = fresh[0]
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'failing_input': f, 'failed_obligations': failed[:20],
                   'rerun': '%s %s/replay/run.py %s --case %s' % (PY_REAL, HERE, prop, '%s:%d:%d:%s' % (f['oracle'], f['k'], f['seed'], f['tier']))},
                  open(path, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif failed:
        viol = len(failed)
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'failing_input': None, 'failed_obligations': failed[:20], 'undecided_units': undecided},
                  open(path, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    for k in known:
        if k['id'] in hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    level = info.LEVEL
    funcs = sorted(c for c in called if c.startswith('qmix'))
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
        'trusted_base': TRUSTED + list(getattr(info, 'TRUSTED', [])),
        'functions_under_contract': funcs,
        'units': {r['unit']: {'status': r['status'], 'obligations': len(r['items']), 'paths': r['paths'], 'reachable_paths': r['reach'],
                              'wall_s': r['wall'], 'note': r['error'][:300]} for r in res},
        'units_proved': len(decided), 'units_total': len(res),
        'undecided_units_decided_by_bounded_stand_in': undecided,
        'backend': 'qv term normaliser + z3 (linear integer/real arithmetic side conditions)',
        'z3_queries': z3n, 'solver_time_s': round(z3t, 3),
        'reachability_checks': reach,
        'bounded_conformance': {'label': 'bounded (never counted as proved)', 'cases': rr['cases'], 'oracles': rr.get('oracles', {}),
                                'error': rr.get('error', '')},
        'evaluations': rr['cases'], 'distinct_nontrivial': rr.get('distinct', rr['cases']),
        'rule': 'each oracle draws an input from its generator (seeded) and compares the real code with the contract evaluated independently; '
                'distinct = distinct generated inputs',
        'samples': rr.get('samples', [])[:5] + [i['name'] for r in res for i in r['items'][:1]][:5],
        'failed_obligations': [i['name'] for i in failed][:20],
        'explanation': info.EXPLAIN,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(info, 'ASSUME', [])) + ['assumed external contract: ' + a for a in sorted(assumed)] +
          ['division denominators assumed non-zero where evaluated (IEEE inf/nan not modelled): ' + w for w in sorted(wd)][:20],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w'), indent=1)
    if rr.get('error') and not fresh and not failed:
        print('UNDECIDED-BOUNDED: %s' % rr['error'][:400], file=sys.stderr)
        # an import failure of the package is a failure of every property
        if rr.get('import_failed'):
            path = os.path.join(rdir, '%s.json' % prop)
            json.dump({'property': prop, 'error': rr['error']}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    if line:
        print(line)
        if failed:
            print('failed obligation: %s' % failed[0]['name'])
        return 1
    print('OK property=%s obligations=%d discharged=%d units=%d/%d bounded_cases=%d wall=%.1fs' % (prop, nob, ndis, len(decided), len(res), rr['cases'], time.time() - t0))
    for u in undecided:
        print('bounded stand-in for: %s' % u[:300])
    return 0


TRUSTED = [
    'the qv verifier (/verif/qv): symbolic semantics of the Python/NumPy subset, term normaliser, loop summarisation',
    'z3 5.x for linear arithmetic side conditions',
    'floating point treated as exact real/complex arithmetic; machine integers as mathematical integers',
    'CPython, NumPy, SciPy, Numba compile and run the verified source faithfully',
]


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        m = re.match(r'known: property=(\S+) oracle=(\S+) match=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            out.append({'id': l.strip(), 'oracle': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out


def match(f, k):
    return f['oracle'] == k['oracle'] and f.get('key') == k['match']


def is_known(f, known):
    return any(match(f, k) for k in known)


if __name__ == '__main__':
    sys.exit(main())
