#!/usr/bin/env python3
"""
check.py PROPERTY [quick|thorough]

Decides one property from the current sources of /repo.  Nothing of /repo is executed.
"""

import json
import os
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from multiprocessing import get_context     # noqa: E402

import registry                             # noqa: E402
from sa import engine as E                  # noqa: E402

ROOT = os.environ.get('VERIF_ROOT', '/repo')


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


ENGINE = None
SPECS = []
RULES = []
LIMIT = 300
DEADLINE = 0


def job(k):
    kind, i = k
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, min(LIMIT, int(DEADLINE - time.time()))))
    t0 = time.time()
    extra = {}
    try:
        if kind == 'spec':
            s = SPECS[i]
            try:
                v, d, c = ENGINE.check(s)
                if c is not None:
                    extra['components'] = c.count
            except E.Missing as e:
                v, d = 'missing', 'no %s' % e
        else:
            r = RULES[i]
            v, d, extra = r.run(ENGINE, ROOT)
    except Timeout:
        v, d = 'undecided', 'time limit'
        if ENGINE.pending is not None:
            v, d = ENGINE.pending[:2]
    except (MemoryError, RecursionError) as e:
        v, d = 'undecided', type(e).__name__
    except Exception:
        v, d = 'crash', traceback.format_exc(limit=-8)
    signal.alarm(0)
    return k, v, d if isinstance(d, (list, tuple)) else str(d), extra, time.time() - t0


def known(prop):
    """Known findings: (construct, text).  One line each: known: property=<id> construct=<...> <what fails>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        if line.startswith('known: property=%s ' % prop):
            w = line.split(' ', 3)
            out.append((w[2].split('=', 1)[1], w[3].strip()))
    return out


def select(prop):
    """The references of the property and of the functions they take as given in the same package or in geom."""
    every = []
    if not registry.PROPS[prop].get('specs'):
        return every
    for f in sorted(os.listdir(ENGINE.specdir)):
        if f.endswith('.py') and f != '__init__.py':
            every += ENGINE.load_specs(f[:-3])
    names = {}
    for s in every:
        names.setdefault(s.target.split(':')[1], []).append(s)
    out = [s for s in every if prop in s.props]
    for s in out:
        for k in ('pure', 'effects', 'new'):
            for n in s.opts.get(k, ()):
                for x in names.get(n + '.__init__' if k == 'new' else n, ()):
                    a, b = (y.target.split(':')[0].split('.')[0] for y in (s, x))
                    if x not in out and (a == b or b in ('geom', 'utils')):
                        out.append(x)
    return out


def main():
    global ENGINE, SPECS, RULES, LIMIT, DEADLINE
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    P = registry.PROPS[prop]
    LIMIT = 300 if tier == 'quick' else 600
    DEADLINE = t0 + 780
    ENGINE = E.Engine(os.path.join(ROOT, 'crysgsu'), os.path.join(HERE, 'specs'))
    if ENGINE.prog.errors:
        print('ERROR: %s' % ENGINE.prog.errors)
        sys.exit(2)
    SPECS = select(prop)
    RULES = list(P.get('rules', ()))
    if not SPECS and not RULES:
        print('ERROR: nothing to check for %s' % prop)
        sys.exit(2)
    jobs = [('spec', i) for i in range(len(SPECS))] + [('rule', i) for i in range(len(RULES))]
    with get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        results = list(pool.imap(job, jobs))
    counts = {}
    viol, undec, broken, samples, comps = [], [], [], [], 0
    rules = {}
    for k, v, d, extra, dt in results:
        if k[0] == 'spec':
            s = SPECS[k[1]]
            name = '%s [%s]' % (s.target, s.fn.node.name)
            loc = ENGINE.where(s.target)
        else:
            name = RULES[k[1]].name
            loc = ''
            rules[name] = extra
        counts[v] = counts.get(v, 0) + 1
        comps += extra.get('components', 0)
        if v == 'violation':
            for x in (d if isinstance(d, (list, tuple)) else [d]):
                if isinstance(x, tuple):
                    viol.append((x[0], x[1]))
                else:
                    viol.append((s.target if k[0] == 'spec' else name, '%s %s: %s' % (loc, name, x)))
        elif v in ('undecided', 'missing', 'crash'):
            undec.append('%s: %s: %s' % (name, v, d))
        elif v != 'ok':
            broken.append('%s: %s: %s' % (name, v, d))
        elif len(samples) < 8:
            samples.append('%s %s: %s' % (loc, name, d))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kn = known(prop)
    new = []
    for c, text in viol:
        for kc, kt in kn:
            if kc == c:
                print('KNOWN-FINDING: property=%s %s' % (prop, kt))
                break
        else:
            new.append((c, text))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': P['explanation'],
            'functions_compared': len(SPECS),
            'functions_agreeing': sum(1 for k, v, *_ in results if k[0] == 'spec' and v == 'ok'),
            'components_compared': comps,
            'rules': rules,
            'undecided': undec,
            'samples': samples,
            'verdicts': counts,
        },
        'assumptions': registry.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for u in undec:
        print('UNDECIDED: %s' % u[:600])
    print('%s: %d functions, %d rules, %s, %.1f s' % (prop, len(SPECS), len(RULES), counts, ev['wall_s']))
    if new:
        rep = os.path.join(HERE, 'evidence', prop + '.violation.txt')
        with open(rep, 'w') as f:
            for c, text in new:
                f.write('%s\n    %s\n' % (c, text))
        for c, text in new:
            print('%s\n    %s' % (c, text[:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    if broken:
        for b in broken:
            print('ERROR: %s' % b[:3000])
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
