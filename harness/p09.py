"""P09 - differentiable warps report their true derivatives (Homog.tla,
Pwa.tla, Spline.tla)."""
import numpy as np

ATOL = 1e-8


def q(r):
    return r[0] / r[1]


def arr(x):
    """nested rationals -> float array"""
    if len(x) == 2 and not isinstance(x[0], list):
        return q(x)
    return np.array([arr(v) for v in x], float)


EV2 = [[0, 0], [1, 0], [2, -3], [-1, 4]]
EV3 = [[0, 0, 0], [1, 2, -1], [3, 0, 2]]
SRC2 = np.array([[0., 0.], [4., 1.], [1., 5.], [-2., 3.], [3., -4.]])
VECS = dict(
    affine2=[[0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 2, -1], [-2, 1, 3, 0, 0, 4], [0, -1, 1, -1, 1, 1]],
    aaffine2=[[0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 2, -1], [-2, 1, 3, 0, 0, 4], [0, -1, 1, -1, 1, 1]],
    affine3=[[0] * 12, [1, 2, 0, -1, 0, 1, 0, 3, 1, 5, -2, 7], [-2, 0, 0, 0, 1, 0, 2, 0, -2, 0, 1, 0]],
    sim2=[[0, 0, 0, 0], [1, 0, 2, -3], [-1, 2, 0, 1], [-3, 1, 4, 0], [0, -1, 1, 1]],
    asim2=[[0, 0, 0, 0], [1, 0, 2, -3], [-1, 2, 0, 1], [-3, 1, 4, 0], [0, -1, 1, 1]])


def close(a, b, tol=ATOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol * max(1., np.abs(b).max()))


def homog(c):
    from menpo.shape import PointCloud
    from menpofit import transform as T
    kind = c['kind']
    ev = np.array(EV3 if kind == 'affine3' else EV2, float)
    if kind == 'affine3':
        t = T.DifferentiableAffine(np.eye(4))
    elif kind == 'affine2':
        t = T.DifferentiableAffine(np.eye(3))
    elif kind == 'sim2':
        t = T.DifferentiableSimilarity(np.eye(3))
    else:
        cls = T.DifferentiableAlignmentAffine if kind == 'aaffine2' else T.DifferentiableAlignmentSimilarity
        t = cls(PointCloud(SRC2), PointCloud(SRC2))
    for h in c['hist']:
        v = np.array(VECS[kind][h['i'] - 1], float) if h['i'] else None
        vk = None if v is None else v.copy()
        if h['op'] == 'set':
            t._from_vector_inplace(v)
        elif h['op'] == 'copy':
            before = t.as_vector().copy()
            t2 = t.from_vector(v)
            if not np.array_equal(before, t.as_vector()):
                yield kind + '/from-vector-changed-original', c
            t = t2
        elif h['op'] == 'compose':
            t.compose_after_from_vector_inplace(v)
        elif h['op'] == 'invert':
            p = t.as_vector().copy()
            iv = t.pseudoinverse_vector(p)
            if not close(t.as_vector(), p):
                yield kind + '/pseudoinverse-vector-changed-warp', c
            t._from_vector_inplace(iv)
        else:
            full = T.DifferentiableAffine(np.eye(3)) if kind == 'aaffine2' else T.DifferentiableSimilarity(np.eye(3))
            t.set_target(full.from_vector(v).apply(PointCloud(SRC2)))
        if v is not None and not np.array_equal(v, vk):
            yield kind + '/vector-argument-changed', c
    for v in state(c, kind, t, ev, ''):
        yield v
    # a copy is the same warp; the non-alignment version too
    for v in state(c, kind, t.copy(), ev, 'copy-'):
        yield v
    if kind in ('aaffine2', 'asim2'):
        # (menpo itself does not re-sync the target when composing in place)
        if not (c['hist'] and c['hist'][-1]['op'] == 'compose') and \
                not close(t.target.points, t.apply(t.source.points), 1e-7):
            yield kind + '/alignment-target', (c, t.target.points.tolist())
        n = t.as_non_alignment()
        if not (hasattr(n, 'd_dp') and hasattr(n, 'd_dx')):
            yield kind + '/as-non-alignment-not-differentiable', c
        else:
            for v in state(c, kind, n, ev, 'nonalign-'):
                yield v
        n._from_vector_inplace(np.ones(len(c['p'])))
        if not close(t.as_vector(), arr(c['p']), 1e-7):
            yield kind + '/as-non-alignment-shares-state', c


def state(c, kind, t, ev, pre):
    # menpo computes alignments and inverses in floating point
    tol = 1e-7
    if not close(t.as_vector(), arr(c['p']), tol):
        yield '%s/%sparameters' % (kind, pre), (c, t.as_vector().tolist())
        return
    if t.n_parameters != len(c['p']):
        yield '%s/%sn-parameters' % (kind, pre), (c, t.n_parameters)
    if not close(t.apply(ev), arr(c['w']), tol):
        yield '%s/%smap' % (kind, pre), (c, t.apply(ev).tolist())
    for sub in (ev, ev[:1], ev[::-1]):
        want = arr(c['dp'])
        want = want[:1] if len(sub) == 1 else (want[::-1] if sub is not ev and len(sub) > 1 else want)
        evk = sub.copy()
        got = t.d_dp(sub)
        if not close(got, want, tol):
            yield '%s/%sd_dp' % (kind, pre), (c, np.asarray(got).tolist())
        if not np.array_equal(evk, sub):
            yield '%s/%spoints-changed' % (kind, pre), c
    dx = np.asarray(t.d_dx(ev))
    if dx.ndim != 3 or dx.shape[0] not in (1, len(ev)) or not close(
            np.broadcast_to(dx, (len(ev),) + dx.shape[1:]), np.array([arr(c['dx'])] * len(ev)), tol):
        yield '%s/%sd_dx' % (kind, pre), (c, dx.tolist())
    inv = t.pseudoinverse()
    if not close(inv.apply(t.apply(ev)), ev, 1e-6) or not close(t.pseudoinverse_vector(t.as_vector()), arr(c['inv']), 1e-6):
        yield '%s/%sinverse' % (kind, pre), c
    for bad in (np.zeros((2, ev.shape[1] + 1)), np.zeros((2, 1))):
        try:
            t.d_dp(bad)
            yield '%s/%swrong-dims-accepted' % (kind, pre), c
        except ValueError:
            pass


MESHES = [dict(pts=[[0, 0], [4, 0], [4, 4], [0, 4]], tris=[[1, 2, 3], [1, 3, 4]]),
          dict(pts=[[0, 0], [4, 0], [4, 4], [0, 4], [1, 2]], tris=[[1, 5, 2], [2, 3, 5], [3, 4, 5], [5, 4, 1]]),
          dict(pts=[[3, 0], [0, 1], [4, 3], [1, 4], [2, 2]], tris=[[1, 5, 2], [1, 3, 5], [5, 3, 4], [4, 2, 5]])]
SHIFTS = [[[1, 0], [0, 2], [-1, 1]], [[3, -2]], [[0, 0], [0, 0], [2, 1], [0, 0], [-1, -1]],
          [[5, 1], [-2, 0], [1, 1], [0, -3]]]


def pwa(c):
    from menpo.shape import PointCloud, TriMesh
    from menpo.transform.piecewiseaffine import PiecewiseAffine
    from menpofit.transform import DifferentiablePiecewiseAffine
    try:
        from menpo.transform.piecewiseaffine import TriangleContainmentError
    except ImportError:
        from menpo.transform.piecewiseaffine.base import TriangleContainmentError
    m = MESHES[c['mesh'] - 1]
    pts = np.array(m['pts'], float)
    src = TriMesh(pts, trilist=np.array(m['tris']) - 1)
    t = DifferentiablePiecewiseAffine(src, PointCloud(pts.copy()))
    at = c['at']
    X = np.array([arr(a['x']) for a in at])
    W = np.array([arr(a['w']) for a in at])
    Y = np.array([arr(a['y']) for a in at])
    first = True
    for n, d in enumerate([None] + c['hist']):
        if d is not None:
            s = SHIFTS[d - 1]
            t.set_target(PointCloud(pts + np.array([s[i % len(s)] for i in range(len(pts))], float)))
        # derivatives are asked for at every intermediate state too
        g = t.d_dl(X)
        if not close(g, np.repeat(W[:, :, None], 2, 2)):
            yield 'd_dl', (c['mesh'], c['hist'][:n])
            return
    got = t.apply(X)
    if not close(got, Y):
        yield 'map', (c['mesh'], c['hist'])
    # one point at a time, and in another order
    for i in range(0, len(X), 7):
        if not close(t.d_dl(X[i:i + 1]), np.repeat(W[i:i + 1, :, None], 2, 2)):
            yield 'd_dl-single', (c['mesh'], c['hist'], X[i].tolist())
    if not close(t.d_dl(X[::-1].copy()), np.repeat(W[::-1, :, None], 2, 2)):
        yield 'd_dl-order', (c['mesh'], c['hist'])
    if not close(t.d_dl(pts), np.repeat(np.eye(len(pts))[:, :, None], 2, 2)):
        yield 'd_dl-landmarks', (c['mesh'], c['hist'])
    k = [i for i, a in enumerate(at) if a['dx']]
    want = np.array([arr(at[i]['dx']) for i in k])
    dx = np.asarray(t.d_dx(X[k]))
    dx = np.broadcast_to(dx, want.shape) if dx.ndim == 3 and dx.shape[0] in (1, len(k)) else dx
    if not close(dx, want):
        if close(dx, np.array([np.eye(2)] * len(k))):
            yield 'd_dx-is-the-identity', (c['mesh'], c['hist'])
        else:
            yield 'd_dx', (c['mesh'], c['hist'], dx.tolist())
    for o in c['out'][:3] + c['out'][-2:]:
        P = np.vstack([X[:2], arr(o)[None]])
        try:
            t.d_dl(P)
            yield 'outside-accepted', (c['mesh'], P[-1].tolist())
        except TriangleContainmentError as e:
            if list(np.asarray(e.points_outside_source_domain).ravel()) != [False, False, True]:
                yield 'outside-mask', (c['mesh'], P[-1].tolist())


CENTRES = [[[0, 0], [4, 0], [4, 4], [0, 4]], [[0, 0], [5, 1], [4, 4], [-1, 3], [2, 2], [1, -3]],
           [[-3, 2], [3, 3], [1, -4], [0, 0], [6, -2]]]
# in sixteenths: centres, points very close to them and points well away
UNIT = 16
POINTS = [[16, 16], [0, 0], [32, 48], [-32, 80], [64, 64], [48, -16], [65, 64], [1, -1], [2, 0], [61, 67], [40, 27], [-47, 34]]
AFF = [[[1, 0, 0], [0, 1, 0]], [[2, 0, 1], [0, 2, -3]], [[0, -1, 2], [1, 0, 0]], [[1, 2, 0], [-1, 1, 4]]]
BENDS = [[[1, 0], [0, 2], [-1, 1], [0, 0], [2, -2]], [[0, 0], [0, 0], [3, 1]]]


def spline(c):
    from menpo.shape import PointCloud
    from menpofit.transform import (DifferentiableThinPlateSplines, DifferentiableR2LogR2RBF,
                                    DifferentiableR2LogRRBF)
    C = np.array(CENTRES[c['cs'] - 1], float)
    X = np.array(POINTS, float) / UNIT
    K = DifferentiableR2LogR2RBF if c['kernel'] == 'r2logr2' else DifferentiableR2LogRRBF
    if not c['hist']:
        ker = K(C)
        lg = lambda r2: np.log(r2) if r2 else 0.
        wd = np.array([[[q(g) * (1 + lg(q(e['d']['r2']))) for g in e['d']['g']] for e in r] for r in c['kern']])
        wv = np.array([[q(e['v']['v']) * lg(q(e['v']['r2'])) for e in r] for r in c['kern']])
        Xk = X.copy()
        if not close(ker.d_dl(X), wd):
            yield 'kernel-derivative', (c['cs'], c['kernel'])
        if not close(ker.apply(X), wv):
            yield 'kernel-value', (c['cs'], c['kernel'])
        if not np.array_equal(X, Xk):
            yield 'points-changed', c
        for i in range(len(X)):
            if not close(ker.d_dl(X[i:i + 1]), wd[i:i + 1]):
                yield 'kernel-derivative-single', (c['cs'], c['kernel'], i)
    for dflt in ((False, True) if c['kernel'] == 'r2logr2' else (False,)):
        t = DifferentiableThinPlateSplines(PointCloud(C), PointCloud(C.copy()), kernel=None if dflt else K(C))
        for h in c['hist']:
            if h['k'] == 'affine':
                A = np.array(AFF[h['i'] - 1], float)
                t.set_target(PointCloud(C.dot(A[:, :2].T) + A[:, 2]))
            else:
                B = BENDS[h['i'] - 1]
                t.set_target(PointCloud(C + np.array([B[i % len(B)] for i in range(len(C))], float)))
        T = np.array(c['tgt'], float)
        for X_ in (X, C, X[:1], X[2:5]):
            W = t.d_dl(X_)
            if W.shape != (len(X_), len(C), 2) or not np.allclose(W[..., 0], W[..., 1], atol=1e-7):
                yield 'tps-d_dl-shape', (c['cs'], c['hist'])
                continue
            w = W[..., 0]
            if not close(w.dot(T), t.apply(X_), 1e-7):
                yield 'tps-d_dl', (c['cs'], c['kernel'], c['hist'])
            if not close(w.dot(C), X_, 1e-7) or not close(w.sum(1), np.ones(len(X_)), 1e-7):
                yield 'tps-d_dl-precision', (c['cs'], c['kernel'], c['hist'])
            g = np.asarray(t.d_dx(X_))
            if c['map']:
                want = np.array([np.array(c['map'], float)[:, :2]] * len(X_))
                tol = 1e-7
            else:
                e = 1e-5
                want = np.stack([(t.apply(X_ + e * u) - t.apply(X_ - e * u)) / (2 * e) for u in np.eye(2)], 2)
                tol = 1e-5
            if not close(g, want, tol):
                yield 'tps-d_dx', (c['cs'], c['kernel'], c['hist'], g.tolist(), want.tolist())
        if not close(t.d_dl(C)[..., 0], np.eye(len(C)), 1e-7):
            yield 'tps-d_dl-landmarks', (c['cs'], c['hist'])
        if c['images'] and not close(t.apply(X), arr(c['images']), 1e-7):
            yield 'tps-map', (c['cs'], c['hist'])
        # swapping source and target: through the landmarks, of the same kernel
        if np.linalg.matrix_rank(T - T[0]) == 2 and len({tuple(x) for x in T.tolist()}) == len(T):
            before = t.apply(X)
            inv = t.pseudoinverse()
            ref = DifferentiableThinPlateSplines(PointCloud(T), PointCloud(C), kernel=K(T))
            if not close(inv.apply(T), C, 1e-6) or not close(inv.apply(X), ref.apply(X), 1e-6):
                yield 'tps-inverse', (c['cs'], c['kernel'], c['hist'])
            if c['map'] and not close(inv.apply(before), X, 1e-6):
                yield 'tps-inverse-affine', (c['cs'], c['kernel'], c['hist'])
            if not close(np.asarray(inv.d_dl(X)), np.asarray(ref.d_dl(X)), 1e-6) or \
                    not close(np.asarray(inv.d_dl(T))[..., 0], np.eye(len(T)), 1e-6):
                yield 'tps-inverse-d_dl', (c['cs'], c['kernel'], c['hist'])
            g = np.asarray(inv.d_dx(X))
            e = 1e-5
            want = np.stack([(inv.apply(X + e * u) - inv.apply(X - e * u)) / (2 * e) for u in np.eye(2)], 2)
            if not close(g, want, 1e-5):
                yield 'tps-inverse-d_dx', (c['cs'], c['kernel'], c['hist'])
            if not np.array_equal(t.apply(X), before) or not np.array_equal(t.source.points, C):
                yield 'tps-inverse-changes-warp', (c['cs'], c['hist'])
        # the landmark derivative by definition: displace one landmark
        if len(c['hist']) <= 1:
            base, W = t.apply(X), t.d_dl(X)
            for i in range(len(C)):
                for a in range(2):
                    T2 = T.copy()
                    T2[i, a] += 1
                    t.set_target(PointCloud(T2))
                    d = t.apply(X) - base
                    if not close(d[:, a], W[:, i, a], 1e-7) or not close(d[:, 1 - a], np.zeros(len(X)), 1e-7):
                        yield 'tps-d_dl-definition', (c['cs'], c['hist'], i, a)


def run(ctx):
    cs = ctx.tlc('Homog', dict(Kinds=set(VECS), Vecs=dict(VECS), Evals2=EV2, Evals3=EV3, MaxOps=ctx.pick(2, 3)),
                 invariants=['RoundTrip', 'Inverts', 'Affine_', 'Emit'], workers=8).cases
    cs.sort(key=lambda c: (c['kind'], len(c['hist']), str(c['hist'])))
    rng = np.random.RandomState(ctx.seed)
    lim = ctx.pick(2500, 30000)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    ctx.replay('homogeneous', cs, homog)
    ps = ctx.tlc('Pwa', dict(Meshes=MESHES, Shifts=SHIFTS, Span=4, Half=ctx.pick(2, 4), MaxOps=2),
                 invariants=['Continuous', 'Identity', 'Interpolates', 'LandmarkDerivative', 'Emit'], workers=8).cases
    ctx.replay('pwa', ps, pwa, sample=0)
    ss = ctx.tlc('Spline', dict(Centres=CENTRES, Points=POINTS, Unit=UNIT, Affines=AFF, Bends=BENDS,
                                Kernels={'r2logr2', 'r2logr'}, MaxOps=ctx.pick(2, 3)),
                 invariants=['Odd', 'Emit'], workers=8).cases
    ctx.replay('spline', ss, spline)
