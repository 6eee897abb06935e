#!/usr/bin/env python3
"""Runs the check of one property:  checks/run.py C01 [--tier quick|thorough] [--jobs N] [--only family]"""
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'       # the analysis visits sets: same order in every run
    os.execv(sys.executable, [sys.executable] + sys.argv)

import multiprocessing as mp                  # noqa: E402
from checks import report                     # noqa: E402


def job(args):
    mod, name, tier = args
    t = time.time()
    gc.set_threshold(200000, 20, 100)
    try:
        m = importlib.import_module('checks.' + mod)
        r = m.analyse(name, tier)
        r['error'] = None
    except Exception:
        r = {'error': traceback.format_exc(), 'violations': [], 'coverage': {}}
    r['job'] = name
    r['wall'] = time.time() - t
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    t0 = time.time()
    # no operation is started after this; what is left out is listed as given up
    os.environ['VERIF_DEADLINE'] = str(t0 + (600 if tier == 'quick' else 6 * 3600))
    mod = pid.lower()
    m = importlib.import_module('checks.' + mod)
    jobs = [(mod, n, tier) for n in m.jobs(tier) if not only or n in only or any(o.startswith('~') and o[1:] in n for o in only)]
    results = []
    if len(jobs) == 1 or '--serial' in sys.argv:
        results = [job(j) for j in jobs]
    else:
        with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
            for r in p.imap_unordered(job, jobs, chunksize=1):
                results.append(r)
                if verbose:
                    print('%-12s %6.1f s  %s' % (r['job'], r['wall'], r['error'] or r['coverage']), flush=True)
    results.sort(key=lambda r: r['job'])
    if verbose and (len(jobs) == 1 or '--serial' in sys.argv):
        for r in results:
            print('%-12s %6.1f s  %s' % (r['job'], r['wall'], r['error'] or r['coverage']), flush=True)
    sys.exit(report.finish(pid, m, tier, results, time.time() - t0, partial=bool(only)))


if __name__ == '__main__':
    main()
