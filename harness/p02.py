"""P02 - iteration budgets and the stopping rule.

MultiScale.tla enumerates every budget spelling x number of scales x iteration
history; each behaviour is replayed into the real multi-scale fitters.  Real
fits of every family, with tolerances swept so that every stopping moment
occurs, are recorded and validated against FitTrace.tla."""
import itertools
from multiscale import *


def run(ctx):
    one, half = (1, 1), (1, 2)
    rec = [(1, 0), (-1, 2), (0, 1)]
    st = [(2, -1), (-1, 3), (4, 1)]
    budgets = [budget('int', [m]) for m in range(0, ctx.pick(9, 14))]
    budgets += [budget('list', [m]) for m in range(0, 8)]
    top = ctx.pick(2, 3)
    for n in (0, 2, 3, 4):
        for v in itertools.product(range(top + 1 if n < 4 else 2), repeat=n):
            budgets.append(budget('list', v))
    scales = {1: [one], 2: [half], 3: [half]}
    cases = []
    for n in (1, 2, 3):
        cfg = cfg_set(n, scales[n], ['id'], [half], ['np', 'par'], budgets,
                      [vecs(rec[:n])], [vecs(st[:n])], costs=[False, True])
        cases += explore(ctx, [cfg], [8, 3, 3][:1] if n == 1 else [3] * n)
    keep = [c for i, c in enumerate(cases) if c['outcome'] == 'rejected' or ctx.thorough or
            c['cfg']['n'] < 3 or (i + ctx.seed) % 3 == 0]
    ctx.replay('budgets', keep, replay)
    import traces
    import zoo
    jobs = []
    for k, name in enumerate(zoo.specs()):
        casc = zoo.family(name) in zoo.CASCADE
        np2 = not casc
        if casc:
            jobs.append(dict(name=name, max_iters=[3, 3]))
            continue
        for eps in ctx.pick((None, 0.05, 0.5, 50.), (None, 1e-3, 0.02, 0.05, 0.2, 0.5, 2.0, 50.)):
            jobs.append(dict(name=name, max_iters=[4, 5], eps=eps, im=k % 3))
        if True:
            jobs.append(dict(name=name, max_iters=0, costs=True))
            jobs.append(dict(name=name, max_iters=[0, 2], costs=False, im=1))
        jobs.append(dict(name=name, max_iters=5, costs=bool(k % 2), im=2, bb=True))
        jobs.append(dict(name=name, max_iters=[3], im=k % 3))
        if ctx.thorough:
            for m in (1, 2, 3, 7, 12):
                jobs.append(dict(name=name, max_iters=m, im=k % 3))
            for m in ([1, 0, 2], [2, 1, 1], 4, 7):
                jobs.append(dict(name=name, scales=(0.5, 0.75, 1.0), max_iters=m, im=k % 3))
    traces.run(ctx, jobs, 'P02')
