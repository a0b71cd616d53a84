from multiscale import *

def run(ctx):
    rec = [(1, 0), (-1, 2), (0, 1)]
    st = [(2, -1), (-1, 3), (4, 1)]
    one, half, quarter, tq = (1, 1), (1, 2), (1, 4), (3, 4)
    # exact number of iterations per scale is forced by the budget list when the
    # stub always spends it; Iterate may stop early, so every count is covered
    # 3 scales: every scale list and feature pattern
    full = lambda n: vecs(rec[:n]), 
    cases = []
    c3 = cfg_set(3, [half, one], ['id', 'crop', 'cropdown'], [half], ['np', 'par'],
                 [budget('list', [1, 1, 1])], [vecs(rec)], [vecs(st)])
    cases += [x for x in explore(ctx, [c3], [1, 1, 1])
              if x['iters'] == [1, 1, 1] or (x['iters'] == [1, 0, 1] and x['cfg']['family'] == 'par')]
    # <= 2 scales: all scales, features, ratios, starts, ground truth
    c2 = cfg_set(2, [quarter, half, tq, one], ['id', 'id2', 'crop', 'down', 'cropdown'],
                 [half, one], ['np', 'par'], [budget('list', [1, 1])], [vecs(rec[:2])],
                 [vecs(st[:2])], gts=[True])
    cases += [x for x in explore(ctx, [c2], [1, 1]) if x['iters'] == [1, 1]]
    c1 = [cfg_set(n, [half, one], ['id', 'crop', 'down'], [half, one, (2, 1)] if n == 1 else [half],
                  ['np', 'par'], [budget('list', [1] * n)], [vecs(rec[:n])], [vecs(st[:n])],
                  vias=['shape', 'bb'], gts=[True, False], costs=[True, False],
                  similar=[True]) for n in (1, 2)]
    cases += [x for x in explore(ctx, c1, [1, 1]) if sum(x['iters']) == x['cfg']['n']]
    if ctx.thorough:
        c3 = cfg_set(3, [quarter, half, one], ['id', 'crop', 'down', 'cropdown'], [half, one],
                     ['np', 'par'], [budget('list', [1, 1, 1])], [vecs(rec)], [vecs(st)], gts=[True])
        cases += [x for x in explore(ctx, [c3], [1, 1, 1], workers=8)
                  if x['iters'] == [1, 1, 1]]
    ctx.replay('multiscale', cases, replay)
    # ---- recorded fits of every real fitter family
    import traces, zoo
    jobs = []
    for name in zoo.specs():
        casc = zoo.family(name) in zoo.CASCADE
        jobs.append(dict(name=name, max_iters=[2, 1]))
        jobs.append(dict(name=name, max_iters=[1, 2], bb=True, im=1))
        if ctx.thorough or name in QUICK3:
            jobs.append(dict(name=name, scales=(0.5, 0.75, 1.0), max_iters=[1, 2, 1], im=2))
    traces.run(ctx, jobs, 'P01')


QUICK3 = ('aam/WibergInverseCompositional', 'atm_patch/ForwardCompositional', 'lk/ForwardAdditive/SSD',
          'clm/RegularisedLandmarkMeanShift', 'aps/Inverse', 'sdm/NonParametricPCRRegression',
          'unified/ProjectOutRegularisedLandmarkMeanShift', 'dlib/ERT')
