#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""
Driver: decides one property by running the real code of /repo under monitors.

    check.py PROPERTY quick|thorough        exit 0: held on everything observed, 1: VIOLATION line
    check.py --replay FILE                  runs the recorded case again

Workers (PyPy, the interpreter of the project's test suite) import the code from /repo's working tree, run the cases
of the property and judge every observed call; see mon/worker.py.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/pypyvenv/bin/python'
sys.path.insert(0, HERE)
from registry import REGISTRY  # noqa


def known_findings():
    """ the findings listed for the unchanged tree: {(property, key): text} """
    out = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
        for l in f:
            if l.startswith('finding:'):
                _, p, k, text = l.strip().split(None, 3)
                out[(p.split('=')[1], k.split('=')[1])] = text
    return out


def child_cpu(pid):
    """ CPU seconds of a worker started here """
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.


def run(prop, tier, seed, cases, wall, only=None, workers=8):
    reg = REGISTRY[prop]
    known = [k for (p, k) in known_findings() if p == prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed % 1000))
    env.pop('PYTHONPATH', None)
    ps = []
    viol = []
    res = []
    try:
        for w in range(1 if only else workers):
            out = os.path.join(tmp, '%d.json' % w)
            cfg = dict(property=prop, module=reg['module'], repo=REPO, tier=tier, seed=seed, cases=cases,
                       index=w, workers=workers, wall=wall, out=out, only=only, known=known)
            p = subprocess.Popen([PY, os.path.join(HERE, 'mon', 'worker.py'), json.dumps(cfg)], env=env, cwd=REPO,
                                 stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))
            ps.append((p, out, cfg))
        t0 = time.time()
        hard = wall + 150
        while any(p.poll() is None for p, _, _ in ps) and time.time() - t0 < hard:
            time.sleep(.05)
        for p, out, cfg in ps:
            if p.poll() is None:
                # the worker does not come back, not even by its own CPU watchdog
                try:
                    fam, k, c0 = open(out + '.progress').read().split()[:3]
                    used = child_cpu(p.pid) - float(c0)
                except (OSError, ValueError):
                    fam, k, used = '?', -1, 0.
                p.kill()
                p.wait()
                if used > 60:
                    viol.append(dict(property=prop, family=fam, case=int(k), seed=seed, tier=tier, input='',
                                     message='termination: the case used %d s of CPU time and did not finish' % used))
                continue
            if p.returncode != 0 or not os.path.exists(out):
                err = open(out + '.err').read()[-1500:]
                viol.append(dict(property=prop, family='startup', case=-1, seed=seed, tier=tier, input='',
                                 message='the code could not be imported or run: %s' % err))
                continue
            res.append(json.load(open(out)))
    finally:
        for p, _, _ in ps:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return res, viol


def merge(res):
    m = dict(judged={}, skipped={}, outcomes={}, families={}, known={}, cases=0, samples=[], viol=[], sigs=set(), maxcpu=0.)
    for r in res:
        for k in ('judged', 'skipped', 'families'):
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for a, o in r['outcomes'].items():
            d = m['outcomes'].setdefault(a, {})
            for x, b in o.items():
                d[x] = d.get(x, 0) + b
        for a, b in r['known'].items():
            m['known'].setdefault(a, []).extend(b)
        m['cases'] += r['cases']
        m['samples'] += r['samples']
        m['viol'] += r['viol']
        m['sigs'].update(r['sigs'])
        m['maxcpu'] = max(m['maxcpu'], r['maxcpu'])
    return m


def main():
    if sys.argv[1] == '--replay':
        v = json.load(open(sys.argv[2]))
        res, viol = run(v['property'], v['tier'], v['seed'], 1, 600, only=(v['family'], v['case']))
        viol += merge(res)['viol']
        for x in viol:
            print('VIOLATION property=%s replay=%s' % (x['property'], sys.argv[2]))
            print('  ' + x['message'])
        sys.exit(1 if viol else 0)

    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = REGISTRY[prop]
    cases = reg['cases'][0 if tier == 'quick' else 1]
    wall = 240 if tier == 'quick' else 650
    workers = min(8, os.cpu_count() or 1)
    t0 = time.time()
    res, viol = run(prop, tier, seed, cases, wall, workers=workers)
    m = merge(res)
    viol += m['viol']
    wallt = time.time() - t0

    listed = known_findings()
    for k, v in sorted(m['known'].items()):
        if (prop, k) in listed:
            print('KNOWN-FINDING: property=%s %s (%s; seen %d times)' % (prop, k, listed[(prop, k)], len(v)))
        else:
            viol.append(dict(property=prop, family='known', case=-1, seed=seed, tier=tier, input=v[0], message='unlisted finding %s' % k))

    # a rule of the property without a single judged event would mean that nothing was observed
    if not viol:
        silent = [r for r in reg['rules'] if not m['judged'].get(r)]
        if silent:
            if any(r.get('stopped') for r in res) or m['cases'] < cases:
                print('note: stopped after %d s, no event seen for: %s' % (wallt, ', '.join(silent)))
            else:
                viol.append(dict(property=prop, family='coverage', case=-1, seed=seed, tier=tier, input='',
                                 message='no event was observed for: %s' % ', '.join(silent)))

    if not viol and not sum(m['judged'].values()):
        print('%s: nothing was observed within %d s, no verdict' % (prop, wallt))
        sys.exit(2)

    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    total = sum(m['judged'].values())
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wallt, 1),
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=len(m['sigs']),
            rule='an evaluation is one event (a call of the code of /repo with its arguments and result) judged by a '
                 'rule of the monitor; distinct_nontrivial counts different inputs that reached at least one judged '
                 'event; events closer to a numerical tolerance than the oracle can decide are only counted as skipped',
            samples=m['samples'][:8],
            cases=m['cases'], cases_planned=cases, workload_families=m['families'], judged_by_rule=m['judged'],
            outcomes_by_rule={k: dict(sorted(v.items(), key=lambda x: -x[1])[:12]) for k, v in m['outcomes'].items()},
            skipped_by_rule=m['skipped'], max_cpu_s_per_case=round(m['maxcpu'], 2), workers=workers,
            known_findings_seen={k: len(v) for k, v in m['known'].items()}),
        assumptions=reg['assumptions'],
        violations=len(viol))
    with open(os.path.join(ev, '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1)

    if viol:
        seen = set()
        for v in viol:
            key = v['message'].split(':')[0] + v['family']
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(ev, 'replays', '%s-%s.json' % (prop, hashlib.md5(repr((key, v['case'], seed)).encode()).hexdigest()[:8]))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  family %s, case %s: %s' % (v['family'], v['case'], v['message'][:600]))
        sys.exit(1)
    print('%s held: %d cases, %d judged events, %d distinct inputs, %.0f s' % (prop, m['cases'], total, len(m['sigs']), wallt))
    sys.exit(0)


main()
