"""Runs real fits of every family and records them as events for FitTrace.tla."""
import numpy as np
import warnings
import zoo

IDX = [0, 4, 7]
UNIT = 1000.0


def q(points, clip=1.0e6):
    """Integer coordinates of three tracer landmarks (1/1000 px)."""
    p = np.asarray(points, dtype=float)[IDX]
    p = np.where(np.isfinite(p), p, 9.9e5)
    return [[int(round(float(np.clip(c, -clip / 2, clip / 2)) * UNIT)) for c in r] for r in p]


def affine_fit(src, dst):
    """Affine map (least squares) with dst ~ src A + b."""
    X = np.hstack([src, np.ones((len(src), 1))])
    sol = np.linalg.lstsq(X, dst, rcond=None)[0]
    return lambda p: np.hstack([p, np.ones((len(p), 1))]).dot(sol)


def update_size(fam, prev, cur, eps_prev_params, name, template=None):
    """Size of the last update, in the unit the optimiser's tolerance uses."""
    if fam == 'lk':
        a, b = eps_prev_params
        if 'Additive' in name:
            return np.linalg.norm(np.asarray(b) - np.asarray(a))
        n = 3
        A = np.eye(3); A[:2] += np.asarray(a).reshape(3, 2).T
        B = np.eye(3); B[:2] += np.asarray(b).reshape(3, 2).T
        D = np.linalg.solve(A, B)
        if 'Inverse' in name:
            D = np.linalg.inv(D)
        return np.linalg.norm((D - np.eye(3))[:2])
    return np.linalg.norm(np.asarray(cur) - np.asarray(prev))


class Recorder(object):
    def __init__(self, fitter, name):
        self.fitter, self.name = fitter, name
        self.calls = []
        self.saved = []

    def __enter__(self):
        for i, a in enumerate(self.fitter.algorithms):
            orig = a.run

            def run(image, initial_shape, gt_shape=None, _orig=orig, _i=i, _a=a, **kw):
                c = dict(i=_i, start=initial_shape.points.copy(), kw=dict(kw),
                         gt=None if gt_shape is None else gt_shape.points.copy(),
                         image=image)
                self.calls.append(c)
                res = _orig(image, initial_shape, gt_shape=gt_shape, **kw)
                c['res'] = res
                return res
            a.run = run
            self.saved.append(a)
        return self

    def __exit__(self, *a):
        for x in self.saved:
            del x.run


def fit_trace(fitter, name, im, start=None, bb=None, gt=None, max_iters=None,
              return_costs=False, caps=None, costsok=True, stages=None, extra=None):
    """-> (trace record, result).  gt must be given (it calibrates the frames)
    but `hide_gt` traces are checked elsewhere."""
    fam = zoo.family(name)
    kw = dict(extra or {})
    if fam != 'dlib':
        kw['return_costs'] = return_costs
        if max_iters is not None:
            kw['max_iters'] = max_iters
    with Recorder(fitter, name) as rec:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if bb is not None:
                res = fitter.fit_from_bb(im, bb, gt_shape=gt, **kw)
            else:
                res = fitter.fit_from_shape(im, start, gt_shape=gt, **kw)
    n = len(fitter.algorithms)
    if bb is not None and fam != 'dlib':
        from menpo.transform import AlignmentSimilarity
        start = AlignmentSimilarity(fitter.reference_shape.bounding_box(), bb).apply(
            fitter.reference_shape)
    par = hasattr(res, 'reconstructed_initial_shapes')
    init = fam != 'dlib'
    ev = []
    sp = 0
    for c in rec.calls:
        to = affine_fit(c['gt'], gt.points)
        r = c['res']
        mi = c['kw'].get('max_iters')
        if init or c['i'] > 0:
            s0 = q(to(c['start']))
        else:
            s0 = q(np.zeros((9, 2)))
        ev.append(dict(e='call', sc=c['i'] + 1, start=s0,
                       cap=-1 if mi is None else int(mi)))
        shapes = r.shapes[1:] if r.initial_shape is not None else list(r.shapes)
        eps = getattr(fitter.algorithms[c['i']], 'eps', None)
        prevpts = c['start']
        # linear (dense) models measure the update on the dense shape; it is the
        # transform's target at the reported parameters
        dense = fam in ('aam_linear', 'aam_linmasked', 'atm_linear', 'atm_linmasked')
        if dense:
            tc = fitter.algorithms[c['i']].transform.copy()
            pts = []
            for v in r.shape_parameters:
                tc = tc.from_vector(v)
                pts.append(tc.target.points.copy())
        params = getattr(r, 'homogeneous_parameters', None) if fam == 'lk' else None
        for j, s in enumerate(shapes):
            small = 'edge'
            isrec = par and j == 0
            if not isrec and eps is not None:
                pp = None if params is None else (params[j - 1], params[j])
                if dense:
                    d = np.linalg.norm(pts[j] - pts[j - 1])
                else:
                    d = update_size(fam, prevpts, s.points, pp, name)
                small = 'big' if d > eps else 'small'
                # updates within rounding of the tolerance decide nothing
                if abs(d - eps) <= 1e-6 * eps + 1e-12:
                    small = 'edge'
            ev.append(dict(e='state', p=q(to(s.points)), small=small,
                           fin=bool(np.isfinite(s.points).all())))
            prevpts = s.points
        ev.append(dict(e='return', n=int(r.n_iters)))
    # result
    sps = getattr(res, '_shape_parameters', None)
    try:
        sps = res.homogeneous_parameters if fam == 'lk' else res.shape_parameters
        nsp = len(sps)
    except AttributeError:
        nsp = -1
    ap = getattr(res, 'appearance_parameters', None)
    nap = -1 if ap is None else len(ap)
    costs = res.costs
    from menpofit.error import euclidean_bb_normalised_error
    pts = [s.points for s in res.shapes]

    def same(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True))
    disp = [np.sqrt(((x - y) ** 2).sum(1)) for x, y in zip(pts, pts[1:])]
    dispok = same(res.displacements(), disp) if disp else len(res.displacements()) == 0
    for st, f in (('mean', np.mean), ('median', np.median), ('max', np.max), ('min', np.min)):
        dispok = dispok and same(res.displacements_stats(st), [f(x) for x in disp])

    def err(p):
        # mean point-to-point distance over mean bounding-box edge of the truth
        g = gt.points
        side = (g.max(0) - g.min(0)).mean()
        return np.sqrt(((p - g) ** 2).sum(1)).mean() / side
    errok = same(res.errors(), [err(p) for p in pts]) and same([res.final_error()], [err(pts[-1])])
    if init:
        errok = errok and same([res.initial_error()], [err(pts[0])])
    if par:
        errok = errok and same([res.reconstructed_initial_error()],
                               [err(pts[1 if init else 0])])
    red = res.to_result()
    redok = (red.is_iterative is False and res.is_iterative is True and
             same(red.final_shape.points, res.final_shape.points) and
             same(red.gt_shape.points, gt.points) and
             ((red.initial_shape is None) == (res.initial_shape is None)) and
             (res.initial_shape is None or
              same(red.initial_shape.points, res.initial_shape.points)) and
             same(red.image.pixels, im.pixels))
    ev.append(dict(
        e='result', shapes=[q(p) for p in pts], final=q(res.final_shape.points),
        hasinit=res.initial_shape is not None,
        initial=q(res.initial_shape.points if res.initial_shape is not None else np.zeros((9, 2))),
        hasgt=res.gt_shape is not None,
        gt=q(res.gt_shape.points if res.gt_shape is not None else np.zeros((9, 2))),
        nit=int(res.n_iters), nper=[int(x) for x in res.n_iters_per_scale],
        nsp=nsp, nap=nap, ncost=-1 if costs is None else len(costs),
        costs=costs is not None,
        recs=[q(s.points) for s in res.reconstructed_initial_shapes] if par else [],
        dispok=bool(dispok), errok=bool(errok), redok=bool(redok),
        imok=bool(res.image is not None and same(res.image.pixels, im.pixels))))
    head = dict(n=n, par=par, init=init, start=q(start.points) if init else q(np.zeros((9, 2))),
                gt=True, gtp=q(gt.points), caps=[-1] * n if caps is None else [int(c) for c in caps],
                costs=bool(return_costs), costsok=bool(costsok),
                coststates=fam != 'lk', stages=[-1] * n if stages is None else list(stages))
    return dict(head=head, ev=ev, name=name), res
