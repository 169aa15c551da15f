#!/usr/bin/env python3
"""
Development tool: makes /verif/seeded/<id>/ from a description and confirms it in /repo (applied and undone).

seed.py FILE.py [ids]    FILE.py defines SEEDS = {id: dict(prop, file, old, new, needs, breaks, demo)}
"""
import importlib.util
import json
import os
import subprocess
import sys

R = '/repo'
S = '/verif/seeded'
BASE = '46499b7'
SH = '''#!/bin/bash
# run in /repo after the build
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRE = '''import os, sys, tempfile, shutil, math
sys.path[:0] = [os.path.join(os.getcwd(), 'crysgsu'), os.path.join(os.getcwd(), 'crysgsu', 'convert')]
TMP = tempfile.mkdtemp(prefix='demo')
import atexit
atexit.register(shutil.rmtree, TMP, True)
import geom
import gsu


def check(c, what):
    if not c:
        print('FAILED:', what)
        sys.exit(1)


'''
GRID = '''
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def grid_file(points, tris, name='g', zones=None, variables=VARS):
    """a grid file with the given points and triangles; zones is a list of lists of triangle numbers"""
    p = os.path.join(TMP, name + '.dat')
    zones = zones or [list(range(len(tris)))]
    with open(p, 'w') as f:
        f.write('# crys-gsu\\nTITLE="%s"\\n' % name)
        f.write('VARIABLES=%s\\n' % ', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + variables))
        for k, z in enumerate(zones):
            ids = sorted({n for t in z for n in tris[t]})
            f.write('ZONE T="zone %d"\\nNODES=%d\\nELEMENTS=%d\\nDATAPACKING=BLOCK\\nZONETYPE=FETRIANGLE\\n' % (k, len(ids), len(z)))
            f.write('VARLOCATION=([4-%d]=CELLCENTERED)\\n' % (3 + len(variables)))
            for c in range(3):
                f.write(' '.join('%.18e' % points[n][c] for n in ids) + ' \\n')
            for v in range(len(variables)):
                f.write(' '.join('%.18e' % (t + 0.01 * v) for t in z) + ' \\n')
            for t in z:
                f.write(' '.join(str(ids.index(n) + 1) for n in tris[t]) + '\\n')
    return p


def plane(nx, ny):
    pts = [(float(i), float(j), 0.0) for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            tris += [(a, a + 1, a + nx + 2), (a, a + nx + 2, a + nx + 1)]
    return pts, tris


def load(p, merge=True):
    g = gsu.Grid()
    g.load(p, merge)
    return g

'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    r = sh('timeout 250 bash %s/demo.sh' % d, cwd=R)
    return r.returncode, r.stdout[-600:]


def main():
    sp = importlib.util.spec_from_file_location('x', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    assert not sh('git -C %s status --porcelain' % R).stdout
    base = {}
    for i, s in m.SEEDS.items():
        if len(sys.argv) > 2 and i not in sys.argv[2:]:
            continue
        d = os.path.join(S, i)
        os.makedirs(d, exist_ok=True)
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        try:
            bad = ''
            for fn, old, new in edits:
                p = os.path.join(R, fn)
                t = open(p, newline='').read()
                if '\r\n' in t:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if t.count(old) != 1:
                    bad = 'pattern occurs %d times' % t.count(old)
                    break
                open(p, 'w', newline='').write(t.replace(old, new))
            if bad:
                print(i, bad)
                continue
            diff = subprocess.run('git -C %s diff' % R, shell=True, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            open(os.path.join(d, 'demo.py'), 'w').write(PRE + (GRID if s.get('grid', True) else '') + s['demo'].lstrip('\n'))
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            rc1, o1 = demo(d)
            t = sh('bash /opt/vp/test.sh /tmp/w/seed_o.json')
            o = json.load(open('/tmp/w/seed_o.json'))
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            failed = [x for x in st if x not in str(o.get('passed', o))]
            for ck in [s['prop']]:
                c = sh('timeout 900 python3 /verif/check.py %s quick' % ck)
        finally:
            sh('git -C %s checkout -- .' % R)
        rc0, o0 = demo(d)
        print(i, 'build', b.returncode, 'tests failed', failed, 'demo', rc0, rc1, 'check', c.returncode,
              [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'UNDECIDED' in l][:2])
        if rc0 != 0:
            print('   UNCHANGED:', o0)
        if rc1 == 0:
            print('   NOT SHOWN:', o1)
        sys.stdout.flush()
    sh('bash /opt/vp/build.sh')


main()
