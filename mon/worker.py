# -*- coding: utf-8 -*-
""" runs the cases of one property on the real code of /repo, in one process. see ../check.py """
import sys
import os
import json
import time
import random
import signal
import io
import contextlib
import traceback
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg['repo'])
    os.chdir(cfg['repo'])
    sink = open(os.devnull, 'w')
    from common import Rec, Timeout, Violation, Skip
    rec = Rec(cfg['property'])
    with contextlib.redirect_stdout(sink):
        mod = importlib.import_module(cfg['module'])
        prop = mod.PROPS[cfg['property']]
    limit = prop.get('cpu_limit', 60.)
    known = set(cfg.get('known', ()))

    def on_alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGPROF, on_alarm)
    t0 = time.time()
    n = cfg['cases']
    if cfg.get('only') is not None:
        todo = [tuple(cfg['only'])]
    else:
        todo = ((None, k) for k in range(cfg['index'], n, cfg['workers']))
    progress = open(cfg['out'] + '.progress', 'w')
    fams = prop['families']  # list of (name, weight, function)
    fnames = [f[0] for f in fams]
    weights = [f[1] for f in fams]
    fmap = {f[0]: f[2] for f in fams}
    stop = False
    for fam, k in todo:
        key = '%s/%s/%d' % (cfg['property'], cfg['seed'], k)
        rng = random.Random(key)
        if fam is None:
            fam = rng.choices(fnames, weights)[0] if k >= 4 * len(fams) else fnames[k % len(fams)]
        rng = random.Random(key + '/' + fam)
        random.seed(key)
        rec.case = (fam, k)
        progress.seek(0)
        progress.write('%s %d %.1f          ' % (fam, k, time.process_time()))
        progress.flush()
        c0 = time.process_time()
        rec.desc = None
        signal.setitimer(signal.ITIMER_PROF, limit, 1.)  # again, if it was swallowed
        try:
            with contextlib.redirect_stdout(sink):
                fmap[fam](rng, rec, cfg['tier'])
            msg = None
        except Skip:
            rec.skip('case')
            msg = None
        except Violation as e:
            msg = str(e)
        except Timeout:
            msg = 'termination: the case did not finish within %d s of CPU time' % limit
        except Exception as e:
            # an exception of the code under test for an input in the domain; a failure of the harness would look the
            # same and is told from it by the traceback
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(cfg['repo'] + '/')]
            last = ' (raised at %s:%d)' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb and tb[-1].filename.startswith(HERE) else ''
            msg = 'exception: %s: %s at %s' % (type(e).__name__, str(e)[:200],
                                               ('%s in %s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].name))
                                               if inrepo else 'harness ' + ' '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])) + last
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        dt = time.process_time() - c0
        rec.maxcpu = max(rec.maxcpu, dt)
        rec.cases += 1
        rec.families[fam] = rec.families.get(fam, 0) + 1
        if msg is None:
            if len(rec.samples) < 2 and rec.desc is not None and rng.random() < .2:
                rec.samples.append('%s case %d: %s' % (fam, k, str(rec.desc)[:300]))
        else:
            rec.viol.append(dict(property=cfg['property'], family=fam, case=k, seed=cfg['seed'], tier=cfg['tier'],
                                 message=msg[:1500], input=str(rec.desc)[:3000]))
            if len(rec.viol) >= 5:
                stop = True
        if stop or time.time() - t0 > cfg['wall']:
            rec.stopped = True
            break
    d = rec.dump()
    d['wall'] = time.time() - t0
    with open(cfg['out'], 'w') as f:
        json.dump(d, f)
    progress.close()


main()
