"""P15 - error metrics compute their defined distances (ErrMetric.tla)."""
import numpy as np
from core import Raw


def f(q):
    return q[0] / q[1]


def close(a, b):
    return np.isscalar(a + 0.) and abs(float(a) - b) <= 1e-9 * abs(b) + 1e-300


def base(c):
    from menpo.shape import PointCloud
    from menpofit import error as E
    from menpofit.error import base as B
    G, S, N = (np.array(c[k], float) for k in ('gt', 'shape', 'norm'))
    euc, rms = f(c['euc']), np.sqrt(f(c['rms2']))
    i, j = c['idx']
    d = np.sqrt(f(c['dist2']))
    nf = {}
    for k, who in (('g', 'gt'), ('n', 'norm')):
        nf[who] = dict(avg_edge_length=f(c[k]['edge']), perimeter=f(c[k]['perimeter']),
                       area=f(c[k]['area']), diagonal=np.sqrt(f(c[k]['diag2'])))
    # joint translation, and joint scaling for length-normalised errors
    views = [('points', lambda x: x), ('cloud', PointCloud),
             ('moved', lambda x: PointCloud(x + np.array([13., -4., 7.])[:x.shape[1]]))]
    for nm, w in views:
        g, s, n = w(G.copy()), w(S.copy()), w(N.copy())
        raw = [x if isinstance(x, np.ndarray) else x.points for x in (g, s, n)]
        keep = [x.copy() for x in raw]

        def chk(clause, got, want):
            if not close(got, want):
                return [(clause, (nm, c, float(got), want))]
            return []
        out = chk('euclidean', E.euclidean_error(s, g), euc)
        out += chk('euclidean-keywords', E.euclidean_error(shape=s, gt_shape=g), euc)
        out += chk('rms', E.root_mean_square_error(s, g), rms)
        out += chk('distance', E.distance_two_indices(i, j, g), d)
        out += chk('distance', E.distance_two_indices(j, i, g), d)
        flat = G.shape[1] == 2    # the bounding boxes are two-dimensional
        for fn, key in () if not flat else ((E.bb_area, 'area'), (E.bb_perimeter, 'perimeter'),
                        (E.bb_avg_edge_length, 'avg_edge_length'), (E.bb_diagonal, 'diagonal')):
            out += chk('normaliser-' + key, fn(g), nf['gt'][key])
            out += chk('normaliser-' + key, fn(n), nf['norm'][key])
        for err, val, idxf, bbf, df in (
                ('euclidean', euc, E.euclidean_distance_indexed_normalised_error,
                 E.euclidean_bb_normalised_error, E.euclidean_distance_normalised_error),
                ('rms', rms, E.root_mean_square_distance_indexed_normalised_error,
                 E.root_mean_square_bb_normalised_error, E.root_mean_square_distance_normalised_error)):
            out += chk(err + '-indexed', idxf(s, g, i, j), val / d)
            out += chk(err + '-indexed', idxf(s, g, index1=j, index2=i), val / d)
            if flat:
                out += chk(err + '-default', bbf(s, g), val / nf['gt']['avg_edge_length'])
            for t in nf['gt'] if flat else ():
                out += chk(err + '-bb-' + t, bbf(s, g, norm_type=t), val / nf['gt'][t])
                out += chk(err + '-bb-norm-shape-' + t, bbf(s, g, norm_shape=n, norm_type=t),
                           val / nf['norm'][t])
            # the normalising function sees the fitted shape, then the ground truth

            def nrm(a, b):
                pa = a if isinstance(a, np.ndarray) else a.points
                pb = b if isinstance(b, np.ndarray) else b.points
                return 2. if np.array_equal(pa, keep[1]) and np.array_equal(pb, keep[0]) else -1e6
            out += chk(err + '-distance', df(s, g, nrm), val / 2.)
            if not flat:
                continue
            try:
                bbf(s, g, norm_type='nope')
                out.append((err + '-accepts-norm-type', c))
            except ValueError:
                pass
        for a, b in zip(raw, keep):
            if not np.array_equal(a, b):
                out.append(('argument-changed', (nm, c)))
        for o in out:
            yield o
    try:
        E.euclidean_error(PointCloud(G), PointCloud(np.vstack([S, S])))
        yield 'accepts-sizes', c
    except ValueError:
        pass
    try:
        E.root_mean_square_error(PointCloud(G), PointCloud(np.vstack([S, S])))
        yield 'accepts-sizes', c
    except ValueError:
        pass
    # units: from pixels to millionths (powers of two: exact in binary)
    for k in (2., 0.25, 2. ** 12, 2. ** -12, 2. ** -24):
        g, s = PointCloud(G * k), PointCloud(S * k)
        for t, v in nf['gt'].items() if flat else ():
            for fn, val in ((E.euclidean_bb_normalised_error, euc), (E.root_mean_square_bb_normalised_error, rms)):
                want = val / v / (k if t == 'area' else 1.)
                if not close(fn(s, g, norm_type=t), want):
                    yield 'scaling-' + t, (c, k)
        if not close(E.euclidean_error(s, g), euc * k) or not close(E.root_mean_square_error(s, g), rms * k):
            yield 'scaling', (c, k)
        if not close(E.euclidean_distance_indexed_normalised_error(s, g, i, j), euc / d):
            yield 'scaling-indexed', c
        if not close(E.root_mean_square_distance_indexed_normalised_error(s, g, i, j), rms / d):
            yield 'scaling-indexed', c


FACE = dict(pupil68='mean_pupil_68_error', pupil49='mean_pupil_49_error',
            outer68='outer_eye_corner_68_euclidean_error',
            outer51='outer_eye_corner_51_euclidean_error',
            outer49='outer_eye_corner_49_euclidean_error',
            bb68='bb_avg_edge_length_68_euclidean_error',
            bb49='bb_avg_edge_length_49_euclidean_error')


def face(c):
    from menpo.shape import PointCloud
    from menpofit import error as E
    G = np.array(c['gt'], float)
    S = G + np.array(c['dv'], float)
    g = PointCloud(G[np.array(c['keepg'], bool)])
    s = PointCloud(S[np.array(c['keeps'], bool)])
    kg, ks = g.points.copy(), s.points.copy()
    for m, w in c['metrics'].items():
        try:
            got = getattr(E, FACE[m])(s, g)
        except ValueError:
            if w['ok']:
                yield m + '-rejects', (c['s'], c['g'])
            continue
        if not w['ok']:
            yield m + '-accepts', (c['s'], c['g'])
            continue
        want = f(w['err']) / np.sqrt(f(w['norm2']))
        if not close(got, want):
            yield m, (c['s'], c['g'], float(got), want)
        if not close(getattr(E, FACE[m])(g, g), 0.) if c['g'] == c['s'] else False:
            yield m + '-nonzero', (c['s'], c['g'])
    if not np.array_equal(kg, g.points) or not np.array_equal(ks, s.points):
        yield 'argument-changed', (c['s'], c['g'])


def run(ctx):
    lat = Raw(ctx.pick('{<<0,0>>, <<4,1>>, <<1,7>>}', '{<<0,0>>, <<4,1>>, <<1,7>>, <<-3,2>>}'))
    invs = ['ZeroIffSame', 'Scaling', 'Nesting', 'EyesInside', 'CorrectSizes', 'Emit']
    cs = ctx.tlc('ErrMetric', dict(Mode='base', NPts=2, Lattice=lat, Variants=0, Dim=2), invariants=invs).cases
    if ctx.thorough:
        cs += ctx.tlc('ErrMetric', dict(Mode='base', NPts=3, Lattice=Raw('{<<0,0>>, <<4,1>>, <<1,7>>}'),
                                        Variants=0, Dim=2), invariants=invs, timeout=850, workers=8).cases
    else:
        cs += ctx.tlc('ErrMetric', dict(Mode='base', NPts=3, Lattice=Raw('{<<0,0>>, <<4,1>>}'),
                                        Variants=0, Dim=2), invariants=invs).cases
    c3 = ctx.tlc('ErrMetric', dict(Mode='base', NPts=2, Variants=0, Dim=3, Lattice=Raw(
        ctx.pick('{<<0,0,0>>, <<2,-1,3>>}', '{<<0,0,0>>, <<2,-1,3>>, <<1,4,-2>>}'))), invariants=invs).cases
    ctx.replay('base3', c3, base)
    rng = np.random.RandomState(ctx.seed)
    cs.sort(key=lambda c: (len(c['gt']), c['gt'], c['shape'], c['norm'], c['idx']))
    lim = ctx.pick(1500, 20000)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    ctx.replay('base', cs, base)
    fc = ctx.tlc('ErrMetric', dict(Mode='face', NPts=0, Lattice=lat, Variants=ctx.pick(3, 7), Dim=2),
                 invariants=invs).cases
    ctx.replay('face', fc, face)
