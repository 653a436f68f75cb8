#!/usr/bin/env python3
"""Development helper (no check uses it): plants one bug in a scratch copy, confirms it and stores it under seeded/<id>.

A spec file /verif/tools/seeds/<id>.py defines PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS and DEMO (python source,
run with cwd /repo, which must fail with the change).  usage: seed.py ID... [--check]
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', HOME='/root')


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(tree):
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--timeout=300', 'tests'], tree)
    return r.returncode == 0, r.stdout[-600:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    for i in ids:
        ns = {}
        exec(open(os.path.join(V, 'tools', 'seeds', i + '.py')).read(), ns)
        d = '/tmp/seed_%s' % i
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        for (f, a, b) in ns['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(i, 'EDIT does not match once:', f, s.count(a), repr(a[:60]))
                return
            open(p, 'w').write(s.replace(a, b))
        out = os.path.join(V, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        diff = sh(['git', 'diff'], d).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd /repo\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/vp/mplconfig}"\n'
                                                     'd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n')
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        g = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        b = sh(['bash', os.path.join(out, 'demo.sh')], d)
        t, tout = tests(d)
        ok = g.returncode == 0 and b.returncode != 0 and t
        print(i, 'good demo', g.returncode, 'bad demo', b.returncode, 'tests', t, '' if ok else (g.stdout[-400:] if g.returncode else '') + ('' if t else tout))
        if ok and '--check' in sys.argv:
            r = sh(['python3-vt', 'check.py', ns['PROPERTY']], V, QV_REPO=d)
            print('   check:', r.returncode, [l[:200] for l in r.stdout.splitlines()][-4:])
        elif not ok and '--keep' not in sys.argv:
            shutil.rmtree(out)
        shutil.rmtree(d, ignore_errors=True)


main()
