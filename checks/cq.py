"""What the checks of the C extension share: which entry points are analysed from which states."""
import os
import time
from cabs import scan
from cabs.load import Program

TECHNIQUE = "abstract interpretation of clang's AST of the C extension (ownership, reference counts, pending exceptions, intervals)"
_prog = []
COMMON = ['the precondition shapes: vectors whose tree has one or two levels (thorough: three) with any length, evolvers that own no node, the root, the tail or both, '
          'iterators that are exhausted or not', 'a node that was not looked at stands for every node in its place; a loop over the slots of a node is analysed for each '
          'slot that is told apart and once for the rest; other loops for one round (thorough: the same), later rounds are taken to be like the first',
          'allocation does not fail; the collector runs between byte codes only (CPython 3.12)', 'functions of the Python API behave as documented (summaries in cabs/interp.py)']


def program():
    if not _prog:
        _prog.append(Program())
    return _prog[0]


def jobs(tier, only=None):
    P = program()
    out = []
    for f, kind, args, res, label in scan.entries(P):
        if only and not only(label, res):
            continue
        for d in scan.selfs(kind) + (scan.deeper(kind) if tier == 'thorough' else []):
            for v in scan.variants(kind, args):
                w = 3 if 'PVectorEvolver' in label and ('delete' in label or v == 'delete') else 2 if 'mset' in label or 'remove' in label or 'persistent' in label else 1
                w += (d is not None and d[1] > 1) + (d is not None and d[0] == 'evolver' and bool(d[2]) and d[2][0])
                out.append((-w, '%s|%r|%r' % (label, d, v)))
    return [n for w, n in sorted(out)]


def analyse(name, tier, prop, havoc=False):
    P = program()
    label, d, v = name.split('|')
    d, v = eval(d), eval(v)
    R = {'found': {}, 'entries': 0, 'states': 0, 'paths': 0, 'gaps': {}, 'reach': set(), 'count': {}}
    for f, kind, args, res, lab in scan.entries(P):
        if lab != label:
            continue
        t = time.time()
        limit = float(os.environ.get('VERIF_JOB_LIMIT', 40 if tier == 'quick' else 1500))
        n = scan.run(P, R, f, d, args, v, res, lab, 1, 10 ** 7, 0, t + limit)
        if havoc and d and d[0] in ('evolver', 'iterator') and res != 'void':
            for k in range(1, min(n, 4 if tier == 'quick' else 8) + 1):
                if time.time() - t > limit:
                    break
                scan.run(P, R, f, d, args, v, res, lab, 1, 10 ** 7, k, t + limit)
    out = []
    for (p, rule, fn), (line, msg) in R['found'].items():
        if p == prop or os.environ.get('VERIF_ANY'):
            out.append({'key': '%s|%s|%s' % (p, rule, fn), 'where': 'pvectorcmodule.c:%s in %s' % (line, fn), 'message': msg})
    cov = {'entry points x states': R['states'], 'paths to an exit': R['paths'], 'functions analysed': set(R['reach']), 'entry points': {label}}
    for k in ('calls', 'index checks', 'writes', 'callbacks', 'api calls', 'visits', 'error events'):
        cov[k] = R['count'].get(k, 0)
    if R['gaps']:
        cov['given up'] = {'%s (%s): %s' % (label, d, k): n for k, n in R['gaps'].items()}
    return {'violations': out, 'coverage': cov}
