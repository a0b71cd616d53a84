"""P03 - result bookkeeping: Result.tla behaviours replayed into every result
class, MultiScale.tla behaviours through the real fitters, and recorded fits of
every family validated against FitTrace.tla."""
import numpy as np
from multiscale import *
from menpo.shape import PointCloud
from menpo.transform import Scale, Translation

BASE = np.array([[0., 0.], [0., 8.], [6., 0.], [6., 8.]])


def spoint(t):
    """Shape of a state token (in the caller's frame); distinct, non-rigid."""
    o = np.array([[3. * t, 4. * t], [0., 9. * t], [-3. * t * t, 0.], [8. * t, 6. * t]])
    return BASE + o


GT = BASE + 2.


def frames(n):
    """per scale (affine, scale) transforms: scale frame -> caller's frame"""
    return ([Translation([float(i), -2. * i]) for i in range(n)],
            [Scale(2. ** (n - i), n_dims=2) for i in range(n)])


def errs(p, metric=None):
    d = np.sqrt(((p - GT) ** 2).sum(1)).mean()
    return d / ((GT.max(0) - GT.min(0)).mean())


def custom(a, b):
    return np.abs(a.points - b.points).max()


def make(case):
    from menpofit import result as R
    from menpofit.aam.result import AAMAlgorithmResult, AAMResult
    from menpofit.lk.result import LucasKanadeAlgorithmResult, LucasKanadeResult
    from menpofit.aps.result import APSAlgorithmResult, APSResult
    from menpofit.unified_aam_clm.result import (UnifiedAAMCLMAlgorithmResult,
                                                 UnifiedAAMCLMResult)
    k, o = case['kind'], case['opt']
    levels = len(case['per'])
    multi = o['n'] > 0
    aff, sca = frames(levels) if multi else ([None], [None])

    def local(t, i):
        p = PointCloud(spoint(t))
        if multi:
            p = sca[i].pseudoinverse().apply(aff[i].pseudoinverse().apply(p))
        return p
    img = Image(np.arange(600.).reshape(1, 20, 30)) if o['image'] else None
    gt = PointCloud(GT) if o['gt'] else None
    res = []
    for i, lv in enumerate(case['per']):
        shapes = [local(t, i) for t in lv['states']]
        kw = dict(initial_shape=local(lv['start'][0], i) if lv['start'] else None,
                  image=img, gt_shape=gt)
        if k == 'plain':
            return R.Result(shapes[-1], **kw), [], img, gt
        kw['costs'] = None if o['costs'] == 'none' else [float(t) for t in case['perCosts'][i]]
        par = [np.array([float(t), 1.]) for t in lv['states']]
        ap = [np.array([10. * t]) for t in lv['states']] if o['ap'] else None
        if k == 'np':
            r = R.NonParametricIterativeResult(shapes, **kw)
        elif k == 'par':
            r = R.ParametricIterativeResult(shapes, par, **kw)
        elif k == 'lk':
            r = LucasKanadeAlgorithmResult(shapes, par, **kw)
        elif k == 'aam':
            r = AAMAlgorithmResult(shapes, par, ap, **kw)
        elif k == 'unified':
            r = UnifiedAAMCLMAlgorithmResult(shapes, par, ap, **kw)
        elif k == 'aps':
            ac = None if not o['ap'] else [100. * t for t in case['perCosts'][i]]
            dc = None if not o['ap'] else [1000. * t for t in case['perCosts'][i]]
            r = APSAlgorithmResult(shapes, par, appearance_costs=ac,
                                   deformation_costs=dc, **kw)
        res.append(r)
    if not multi:
        return res[0], res, img, gt
    cls = dict(np=R.MultiScaleNonParametricIterativeResult,
               par=R.MultiScaleParametricIterativeResult, lk=LucasKanadeResult,
               aam=AAMResult, unified=UnifiedAAMCLMResult, aps=APSResult)[k]
    scales = [1. / 2 ** (levels - 1 - i) for i in range(levels)]
    return cls(res, scales, aff, sca, image=img, gt_shape=gt), res, img, gt


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= 1e-8)


def raises(f):
    try:
        f()
    except ValueError:
        return True
    except Exception as e:
        return type(e).__name__
    return False


def curve(plot, **kw):
    """(x, y) of the only line drawn."""
    import matplotlib.pyplot as plt
    plt.close('all')
    plot(**kw)
    fig = plt.gcf()
    lines = [l for a in fig.axes for l in a.lines]
    out = lines[0].get_xydata().copy() if len(lines) == 1 else np.zeros((0, 2))
    plt.close('all')
    return out


def curve_is(plot, want, **kw):
    got = curve(plot, **kw)
    return close(got[:, 1], want) and close(got[:, 0], range(len(want)))


def replay_result(case):
    k, o = case['kind'], case['opt']
    res, parts, img, gt = make(case)
    want = [spoint(t) for t in case['shapes']]
    multi = o['n'] > 0
    if k == 'plain':
        want = want[-1:] if not case['per'][0]['start'] else want
    fin = spoint(case['final'])
    start = case['per'][0]['start']
    # repeated questions give the same answers
    for again in range(2):
        if not close(res.final_shape.points, fin):
            yield 'final-shape', res.final_shape.points.tolist()
        if (res.initial_shape is None) != (not start) or (
                start and not close(res.initial_shape.points, spoint(start[0]))):
            yield 'initial-shape', None
        if (res.gt_shape is None) != (gt is None) or (gt is not None and not close(res.gt_shape.points, GT)):
            yield 'gt-shape', None
        if (res.image is None) != (img is None) or (
                img is not None and not close(res.image.pixels, img.pixels)):
            yield 'image', None
        for metric, f in ((None, errs), (custom, lambda p: np.abs(p - GT).max())):
            if gt is not None:
                if not close(res.final_error(metric), f(fin)):
                    yield 'final-error', res.final_error(metric)
            elif raises(lambda: res.final_error(metric)) is not True:
                yield 'final-error-without-gt', None
            if case['initialError'] == 'value':
                if not close(res.initial_error(metric), f(spoint(start[0]))):
                    yield 'initial-error', res.initial_error(metric)
            elif raises(lambda: res.initial_error(metric)) is not True:
                yield 'initial-error-absent', None
            if k == 'plain':
                continue
            if gt is not None:
                if not close(res.errors(metric), [f(p) for p in want]):
                    yield 'errors', res.errors(metric)
            elif raises(lambda: res.errors(metric)) is not True:
                yield 'errors-without-gt', None
            if k not in ('plain', 'np'):
                if gt is not None:
                    if not close(res.reconstructed_initial_error(metric),
                                 f(spoint(case['recs'][0]))):
                        yield 'reconstructed-error', None
                elif raises(lambda: res.reconstructed_initial_error(metric)) is not True:
                    yield 'reconstructed-error-without-gt', None
        str(res)
        if k == 'plain':
            if res.is_iterative:
                yield 'is-iterative', None
            continue
        if not res.is_iterative:
            yield 'is-iterative', None
        if not close([s.points for s in res.shapes], want):
            yield 'shapes', dict(got=[s.points.tolist() for s in res.shapes],
                                 want=[w.tolist() for w in want])
        if res.n_iters != case['nIters']:
            yield 'n-iters', (res.n_iters, case['nIters'])
        if multi and (list(res.n_iters_per_scale) != case['nPer'] or res.n_scales != o['n']):
            yield 'n-iters-per-scale', (res.n_iters_per_scale, case['nPer'])
        ws = [np.array([float(t), 1.]) for t in case['params']]
        if k in ('par', 'aam', 'aps', 'unified') and not close(res.shape_parameters, ws):
            yield 'shape-parameters', [list(x) for x in res.shape_parameters]
        if k == 'lk' and not close(res.homogeneous_parameters, ws):
            yield 'homogeneous-parameters', None
        if k in ('aam', 'unified'):
            wa = [np.array([10. * t]) for t in case['params']]
            ap = res.appearance_parameters
            if (ap is None) != (not o['ap']) or (ap is not None and not close(ap, wa)):
                yield 'appearance-parameters', None
        if k == 'aps':
            for got, m in ((res.appearance_costs, 100.), (res.deformation_costs, 1000.)):
                if (got is None) != (not o['ap']) or (
                        got is not None and not close(got, [m * t for t in case['costs']])):
                    yield 'aps-costs', got
        if (res.costs is None) != (o['costs'] == 'none') or (
                res.costs is not None and not close(res.costs, case['costs'])):
            yield 'costs', (res.costs, case['costs'])
        if case['recs']:
            got = ([s.points for s in res.reconstructed_initial_shapes] if multi
                   else [res.reconstructed_initial_shape.points])
            if not close(got, [spoint(t) for t in case['recs']]):
                yield 'reconstructions', None
        wd = [np.sqrt(((spoint(a) - spoint(b)) ** 2).sum(1)) for a, b in case['moves']]
        if not close(res.displacements() if wd else [], wd) or len(res.displacements()) != len(wd):
            yield 'displacements', None
        for name, f in (('mean', np.mean), ('median', np.median), ('max', np.max), ('min', np.min)):
            if not close(res.displacements_stats(name), [f(x) for x in wd]):
                yield 'displacement-' + name, None
        if raises(lambda: res.displacements_stats('sum')) is not True:
            yield 'displacement-unknown', None
        # curves
        if gt is None and raises(res.plot_errors) is not True:
            yield 'error-curve-without-gt', None
        if res.costs is None and raises(res.plot_costs) is not True:
            yield 'cost-curve-absent', None
        if case.get('curves'):
            if gt is not None and not curve_is(res.plot_errors, [errs(p) for p in want]):
                yield 'error-curve', None
            for name, f in (('mean', np.mean), ('max', np.max), ('median', np.median), ('min', np.min)):
                if wd and not curve_is(res.plot_displacements, [f(x) for x in wd], stat_type=name):
                    yield 'displacement-curve', None
            if res.costs is not None and case['costs'] and not curve_is(res.plot_costs, case['costs']):
                yield 'cost-curve', None
        # reduction
        for pi, ps, pg in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
            r = res.to_result(pass_image=bool(pi), pass_initial_shape=bool(ps),
                              pass_gt_shape=bool(pg))
            ok = (not r.is_iterative and close(r.final_shape.points, fin) and
                  (r.initial_shape is not None) == bool(start and ps) and
                  (r.gt_shape is not None) == bool(gt is not None and pg) and
                  (r.image is not None) == bool(img is not None and pi))
            ok = ok and (r.initial_shape is None or close(r.initial_shape.points, spoint(start[0])))
            ok = ok and (r.gt_shape is None or close(r.gt_shape.points, GT))
            if not ok:
                yield 'to-result', (pi, ps, pg)
    # the parts it was built from still say the same
    for lv, r, pc, i in zip(case['per'], parts, case['perCosts'], range(len(parts))):
        n = len(lv['start']) + len(lv['states'])
        if len(r.shapes) != n or r.n_iters != case['nPer'][i] or \
                (r.costs is not None and not close(r.costs, pc)):
            yield 'parts-modified', i
        if k not in ('np', 'lk') and len(r.shape_parameters) != len(lv['states']):
            yield 'parts-modified', i


def run(ctx):
    ks = {'plain', 'np', 'par', 'aam', 'lk', 'aps', 'unified'}
    cases = ctx.tlc('Result', dict(Kinds=ks, MaxScales=ctx.pick(3, 3), MaxIter=ctx.pick(2, 3)),
                    invariants=['Count', 'Ordered', 'RecIndex', 'Emit'], workers=8).cases
    if not ctx.thorough:
        cases = [c for i, c in enumerate(cases) if c['opt']['n'] < 3 and
                 (c['opt']['n'] < 2 or (i + ctx.seed) % 6 == 0) or (i + ctx.seed) % 40 == 0]
    else:
        cases = [c for i, c in enumerate(cases) if c['opt']['n'] < 3 or (i + ctx.seed) % 8 == 0]
    # (drawing takes long)
    few = max(1, len(cases) // ctx.pick(60, 400))
    for i, c in enumerate(cases):
        c['curves'] = (i + ctx.seed) % few == 0
    ctx.replay('result', cases, replay_result)
    # through the real fitters
    rec = [(1, 0), (-1, 2), (0, 1)]
    st = [(2, -1), (-1, 3), (4, 1)]
    mc = []
    for n in (1, 2, 3):
        cfg = cfg_set(n, [(1, 2)] if n > 1 else [(1, 2), (1, 1)], ['id', 'crop'] if n < 3 else ['id'],
                      [(1, 2)], ['np', 'par'], [budget('list', [3] * n if n > 1 else [4])],
                      [vecs(rec[:n])], [vecs(st[:n])], costs=[True, False], gts=[True, False])
        mc += explore(ctx, [cfg], [3] * n)
    mc = [c for i, c in enumerate(mc) if c['cfg']['n'] == 1 or ctx.thorough or (i + ctx.seed) % 2]
    ctx.replay('multiscale', mc, replay)
    import traces
    import zoo
    jobs = []
    for k, name in enumerate(zoo.specs()):
        casc = zoo.family(name) in zoo.CASCADE
        jobs.append(dict(name=name, max_iters=[2, 3], costs=True, im=k % 3))
        jobs.append(dict(name=name, max_iters=[3, 1], costs=False, im=k % 3, bb=True))
        if not casc:
            jobs.append(dict(name=name, max_iters=[3, 4], eps=0.3, costs=True, im=k % 3))
        if not casc and zoo.family(name) != 'lk':
            jobs.append(dict(name=name, max_iters=[0, 1], costs=True, im=k % 3))
        if zoo.family(name) in ('sdm', 'sdaam'):
            # as many iterations as trained, at every scale
            for st in ctx.pick(([2, 0], [0, 3]), ([2, 0], [0, 3], [1, 3], [0, 0], [0, 1], [3, 1])):
                jobs.append(dict(name=name, max_iters=None, stages=st, costs=bool(k % 2), im=k % 3))
        if ctx.thorough:
            jobs.append(dict(name=name, scales=(0.5, 0.75, 1.0), max_iters=[2, 1, 3], im=k % 3, costs=True))
            if zoo.family(name) not in ('dlib',):
                jobs.append(dict(name=name, scales=(1.0,), max_iters=[3], im=k % 3, costs=True))
    traces.run(ctx, jobs, 'P03')
