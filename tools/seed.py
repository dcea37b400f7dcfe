#!/usr/bin/env python3
"""seed.py SPEC.py [ids]: turn bug specifications into seeded/<id>/ after validating them.

A specification is a list SEEDS of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (C++ text).
"""
import json
import os
import subprocess
import sys
import tempfile
REPO = '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
DEMO = '''#!/bin/bash
# Compiles the neighbouring demo.cpp against the library in the current directory and runs it.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -march=x86-64-v3 -fopenmp -w -Iinclude -I. -isystem /usr/include/hdf5/serial "$d/demo.cpp" -o "$t/demo" \\
  -L_build -lum2 -Wl,-rpath,"$PWD/_build" || exit 98
cd "$t" && ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests():
    out = tempfile.mktemp()
    sh(['bash', '/opt/vp/test.sh', out])
    r = json.load(open(out))
    os.unlink(out)
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('passed') or base.get('stable') or base
    return sorted(set(want) - set(r['passed']))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for s in ns['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(SEEDED, s['id'])
        if not ids and os.path.exists(os.path.join(d, 'patch.diff')):
            continue
        assert not sh(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip(), 'dirty /repo'
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(s.get('demo_sh', DEMO))
        if 'demo' in s:
            open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        sh(['bash', '/opt/vp/build.sh'])
        d0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times in', f)
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        try:
            if not ok:
                continue
            open(os.path.join(d, 'patch.diff'), 'w').write(sh(['git', '-C', REPO, 'diff']).stdout)
            b = sh(['bash', '/opt/vp/build.sh'])
            d1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
            miss = tests() if b.returncode == 0 and not os.environ.get('NOTEST') else ['BUILD' + b.stdout[-800:]] if b.returncode else []
            c = sh(['python3', 'check.py', s['property']], cwd=os.path.join(HERE, '..'))
            good = d0.returncode == 0 and d1.returncode != 0 and not miss
            print('%s %s: demo clean=%d patched=%d tests_lost=%s check=%d %s' % (
                s['id'], s['property'], d0.returncode, d1.returncode, miss[:3], c.returncode, 'OK' if good else 'INVALID'))
            if d0.returncode or not d1.returncode:
                print('   demo output:', (d0.stdout + d0.stderr)[-600:], '|', (d1.stdout + d1.stderr)[-300:])
            print('   ', c.stdout.strip().splitlines()[-1][:200] if c.stdout.strip() else c.stderr[-200:])
        finally:
            sh(['git', '-C', REPO, 'checkout', '--', '.'])
            sys.stdout.flush()


main()
