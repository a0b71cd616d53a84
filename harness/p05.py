"""P05: Gauss-Newton updates solve their least-squares problem (Lstsq.tla)."""
import warnings
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from core import Raw
from pool import pmap
from p06 import verdicts, vec
from p21 import q2


# ------------------------------------------------------------ the toy world --
class Toy(object):
    """A linear world: NP parameters, the target is a row of numbers."""
    n_dims = 2

    def __init__(self, DW, eig, noise):
        self.DW = np.array(DW, float)          # 2 x pixels x parameters
        self.n_parameters = self.DW.shape[2]
        self.p = np.zeros(self.n_parameters)
        self.pdm = self
        self.model = self
        self.eigenvalues = np.array(eig, float)
        self._noise = noise

    def noise_variance(self):
        return self._noise

    def d_dp(self, points):
        return np.rollaxis(self.DW, 0, 3)      # pixels x parameters x 2

    def as_vector(self):
        return self.p.copy()

    def _from_vector_inplace(self, v):
        self.p = np.array(v, float)

    from_vector_inplace = _from_vector_inplace

    @property
    def target(self):
        return shape_of(self.p)

    def set_target(self, t):
        self.p = t.points[:, 0] - 3.


def shape_of(p):
    from menpo.shape import PointCloud
    p = np.asarray(p, float)
    return PointCloud(np.stack([p + 3., np.arange(len(p)) * 1.], 1))


def masked(v):
    from menpo.image import MaskedImage
    return MaskedImage(np.array(v, float)[None, None, :].copy())


def interface(base, *args, **kw):
    class Planned(base):
        def warp(self, image):
            im = masked(self.plan[min(self.shown, len(self.plan) - 1)])
            self.shown += 1
            self.seen.append(self.transform.as_vector())
            return im

        def gradient(self, image):
            v = image.pixels.ravel()
            return np.stack([np.roll(v, -1) - v, v])[:, None, :]
    return Planned(*args, **kw)


def build(w, c):
    """The real optimiser of a behaviour in the toy world."""
    from menpo.model import PCAModel
    from menpofit.aam.algorithm import lk as A
    from menpofit.atm import algorithm as T
    names = dict(po='ProjectOut', sim='Simultaneous', alt='Alternating', mod='ModifiedAlternating', wib='Wiberg')
    t = Toy(w['DW'], [q2(x) for x in w['EigS']], q2(w['NoiseS']))
    sampling = np.array(w['Sampled']) - 1
    mean = masked(w['Mean'])
    if c['kind'] == 'atm':
        i = interface(T.ATMLucasKanadeStandardInterface, t, mean, sampling=sampling)
        cls = getattr(T, {'f': 'Forward', 'i': 'Inverse'}[c['dir']] + 'Compositional')
    else:
        comps = np.array([[q2(x) for x in r] for r in w['Comps'] + w['Spare']])
        eig = np.array([q2(x) for x in w['EigA']] + [q2(w['NoiseA'])] * len(w['Spare']))
        m = PCAModel.init_from_components(comps, eig, mean, 20, True)
        m.n_active_components = len(w['Comps'])
        i = interface(A.LucasKanadeStandardInterface, m, t, mean, sampling=sampling)
        cls = getattr(A, names[c['kind']] + {'f': 'Forward', 'i': 'Inverse'}[c['dir']] + 'Compositional')
    i.plan, i.shown, i.seen = [w['Images'][x - 1] for x in c['imgs']], 0, []
    return cls(i), i


def gn(arg):
    w, c = arg
    bad = []
    alg, itf = build(w, c)
    start = shape_of(w['Starts'][c['start'] - 1])
    before = start.points.copy()
    n = len(c['trail']) - 1
    if np.array_equal(vec(c['trail'][-1]['p']), vec(c['trail'][-2]['p'])):
        n += 2                         # it has settled: it must stop by itself
    r = alg.run(masked(w['Mean']), start, max_iters=n, return_costs=True, map_inference=c['prior'])
    tag = '%s-%s-%s' % (c['kind'], c['dir'], 'map' if c['prior'] else 'ml')
    case = (tag, dict(start=w['Starts'][c['start'] - 1], imgs=c['imgs'], sampled=w['Sampled'], world=w['name']))
    P = [np.asarray(v, float) for v in r.shape_parameters]
    S = [s.points for s in r.shapes][-len(P):]
    C = getattr(r, 'appearance_parameters', None) if c['kind'] not in ('po', 'atm') else None
    K = list(r.costs)
    if n > len(c['trail']) - 1 and len(P) != len(c['trail']):
        bad.append(('not-settled-' + tag, (case, len(P))))
    if len(P) > n + 1 or len(K) != len(P) or (C is not None and len(C) != len(P)):
        return [('lengths', (case, len(P), len(K)))]
    for k, t in enumerate(c['trail']):
        if k >= len(P):
            if not np.allclose(P[-1], vec(t['p']), atol=1e-6):
                bad.append(('steps-missing-' + tag, (case, len(P))))
            break
        want = vec(t['p'])
        tol = 1e-6 * max(1., np.abs(want).max())
        if not np.allclose(P[k], want, atol=tol):
            return bad + [('parameters-' + tag, (case, k, P[k].tolist(), want.tolist()))]
        if not np.allclose(S[k], shape_of(P[k]).points, atol=1e-9):
            bad.append(('shape-' + tag, (case, k)))
        if C is not None:
            cw = vec(t['c'])
            if not np.allclose(C[k], cw, atol=1e-6 * max(1., np.abs(cw).max())):
                return bad + [('appearance-' + tag, (case, k, np.asarray(C[k]).tolist(), cw.tolist()))]
        if abs(K[k] - q2(t['cost'])) > 1e-6 * max(1., q2(t['cost'])):
            return bad + [('cost-' + tag, (case, k, float(K[k]), q2(t['cost'])))]
    for k, v in enumerate(itf.seen[:len(P)]):
        if not np.allclose(v, P[k], atol=1e-9):
            bad.append(('image-elsewhere-' + tag, (case, k)))
            break
    if not np.array_equal(before, start.points):
        bad.append(('start-changed', case))
    return bad


def world(name, N, comps, spare, mean, images, sampled, dw, starts, eigA, noiseA, eigS, noiseS, it):
    """dw: {(dim, pixel, parameter): value}"""
    NP = 4 + len(eigS)
    D = np.zeros((2, N, NP), int)
    for (d, n, q), v in dw.items():
        D[d, n, q] = v
    f = lambda cs: [[[x if isinstance(x, int) else x[0], 1 if isinstance(x, int) else x[1]] for x in r] for r in cs]
    return dict(name=name, Images=images, Mean=mean, Comps=f(comps), Spare=f(spare), Sampled=sampled, DW=D.tolist(), Starts=starts,
                EigA=f([eigA])[0], NoiseA=f([[noiseA]])[0][0], EigS=f([eigS])[0], NoiseS=f([[noiseS]])[0][0], MaxIters=it)


# noise variance of the shape models
NOISE = [2, 0, (1, 2), 3, 1]


def rand_world(rng, name, N, NP, it, n_images, two=False, drop=1):
    """A random sparse linear world with small integers."""
    a = [[(3, 5)] + [0] * (N - 2) + [(4, 5)]]
    if two:
        a.append([0, 0, (4, 5), (3, 5)] + [0] * (N - 4))
    # the components left out are orthogonal to those kept
    spare = [[0] * N]
    spare[0][1] = 1
    mean = [int(v) for v in rng.randint(0, 4, N)]
    images = []
    for k in range(n_images):
        d = rng.randint(-1, 2, N)
        if k == 0:
            images.append(mean)
        elif k == 1:                     # explained by the appearance model
            images.append([int(mean[0] + 3)] + mean[1:-1] + [int(mean[-1] + 4)])
        else:
            images.append([int(v) for v in np.array(mean) + d])
    dw = {}
    for n in range(N):
        dw[(int(rng.randint(2)), n, n % NP)] = int(rng.choice([1, 1, -1, 2]))
    for _ in range(2):
        dw[(int(rng.randint(2)), int(rng.randint(N)), int(rng.randint(NP)))] = 1
    sampled = list(range(1, N + 1))
    for _ in range(drop):
        sampled.remove(int(rng.choice(sampled[1:-1])))
    starts = [[0] * NP, [int(v) for v in rng.randint(-2, 3, NP)]]
    return world(name, N, a, spare, mean, images, sampled, dw, starts, [4, 2][:len(a)], 2, [2, 4][:NP - 4], NOISE[int(name[1:]) % len(NOISE)], it)


# ----------------------------------------------------- plain Lucas-Kanade --
class Snap(object):
    """x -> x + sum_q p_q D_q(x), rounded to pixels."""
    n_dims = 2

    def __init__(self, D):
        self.D = np.array(D, float)            # parameters x rows x columns x 2
        self.n_parameters = len(D)
        self.p = np.zeros(len(D))

    def apply(self, x, batch_size=None, **kwargs):
        y = np.rint(x).astype(int)
        d = np.einsum('q,qnk->nk', self.p, self.D[:, y[:, 0], y[:, 1]])
        return x + np.floor(d + .5 + 1e-7)

    def d_dp(self, x):
        y = np.rint(x).astype(int)
        return np.rollaxis(self.D[:, y[:, 0], y[:, 1]], 0, 2).copy()

    def as_vector(self):
        return self.p.copy()

    def from_vector_inplace(self, v):
        self.p = np.array(v, float)

    _from_vector_inplace = from_vector_inplace

    def pseudoinverse_vector(self, v):
        return -np.asarray(v)

    def compose_after_from_vector_inplace(self, v):
        self.p = self.p + v

    @property
    def target(self):
        return shape_of(self.p)

    def set_target(self, t):
        self.p = t.points[:, 0] - 3.


LK = dict(fa='ForwardAdditive', fc='ForwardCompositional', ic='InverseCompositional')


def kernel_of(k, shape):
    if k[1] == 0 and k[0] == 1:
        return None
    a = np.zeros(shape)
    a[0, 0] += k[0]
    for y, x in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        a[y, x] += k[1]
    return np.fft.fft2(a)


def lk(arg):
    from menpo.image import Image, MaskedImage
    from menpofit.lk import algorithm as A, residual as R
    w, c = arg
    bad = []
    want = np.array([vec(v) for v in c['trail']])
    settled = np.array_equal(want[-1], want[-2])
    n = len(c['costs']) + (2 if settled else 0)
    T = np.array(w['Template'], float)
    for name in ('SSD', 'FourierSSD'):
        tr = Snap(w['D'])
        alg = getattr(A, LK[c['alg']])(MaskedImage(T.copy()), tr, getattr(R, name)(kernel=kernel_of(c['kernel'], T.shape[1:])))
        # leftovers of an earlier fit must not matter
        tr.set_target(shape_of(np.arange(tr.n_parameters) - 1.))
        im = Image(np.array(w['Images'][c['img'] - 1], float))
        start = shape_of(w['Starts'][c['start'] - 1])
        pixels, before, tpl = im.pixels.copy(), start.points.copy(), alg.template.pixels.copy()
        tag = '%s-%s%s' % (c['alg'], name, '' if c['kernel'] == [1, 0] else '-kernel')
        case = (tag, dict(world=w['name'], img=c['img'], start=w['Starts'][c['start'] - 1], kernel=c['kernel']))
        r = alg.run(im, start, max_iters=n, return_costs=True)
        got = np.array(r._homogeneous_parameters if hasattr(r, '_homogeneous_parameters') else r.homogeneous_parameters)
        if settled and len(got) == len(want) + 1 and np.allclose(got[-1], got[-2], atol=1e-7):
            got = got[:-1]                     # noticing it to rounding
        tol = 1e-6 * max(1., np.abs(want).max())
        if len(got) != len(want) or not np.allclose(got, want, atol=tol):
            bad.append(('parameters-' + tag, (case, got.tolist(), want.tolist())))
            continue
        if not np.allclose(r.costs[:len(c['costs'])], c['costs'], atol=1e-6 * max(1., max(c['costs']))):
            bad.append(('cost-' + tag, (case, np.real(r.costs).tolist(), c['costs'])))
        if not all(np.allclose(s.points, shape_of(v).points, atol=1e-9) for s, v in zip(r.shapes[-len(got):], got)):
            bad.append(('shapes-' + tag, case))
        if not (np.array_equal(pixels, im.pixels) and np.array_equal(before, start.points) and np.array_equal(tpl, alg.template.pixels)):
            bad.append(('inputs-changed-' + tag, case))
    return bad


class Shift(Snap):
    def __init__(self):
        self.n_parameters, self.p = 2, np.zeros(2)

    def apply(self, x, batch_size=None, **kwargs):
        return x + self.p

    def d_dp(self, x):
        return np.tile(np.eye(2)[None], (len(x), 1, 1))


CORNERS = np.array([[0., 0.], [0., 19.], [19., 19.], [19., 0.]])


def seen(pixels, view):
    return np.ascontiguousarray(dict(same=lambda x: x, transposed=lambda x: x.swapaxes(1, 2), upside=lambda x: x[:, ::-1],
                                     behind=lambda x: x[:, :, ::-1])[view](pixels))


def at(view, p, n):
    """Where points are seen in an image with rows and columns 0 .. n."""
    p = np.array(p, float)
    if view == 'transposed':
        return p[..., ::-1].copy()
    if view == 'upside':
        p[..., 0] = n - p[..., 0]
    if view == 'behind':
        p[..., 1] = n - p[..., 1]
    return p


def relation(c):
    """Two alignments of the same scene, compared."""
    from scipy.ndimage import gaussian_filter
    from menpo.image import Image, MaskedImage
    from menpo.shape import PointCloud
    from menpofit.lk import algorithm as A, residual as R
    from menpofit.transform import DifferentiableAlignmentSimilarity, DifferentiableAlignmentAffine
    bad = []
    rng = np.random.RandomState(c['texture'])
    nc = 1 + c['texture'] % 2
    scene = np.stack([gaussian_filter(rng.rand(60, 60), 3) for _ in range(nc)]) * 20
    home = CORNERS + 20.
    off = np.array(c['offset']) / 10.
    paths, costs, places = [], [], []
    for g, b, gt, bt, view in ((1, 0, 1, 0, 'same'),
                               (c['gain'], c['bias']) + ((c['gain'], c['bias']) if c['along'] else (1, 0)) + (c['view'],)):
        T = MaskedImage(seen(scene[:, 20:40, 20:40] * gt + bt, view))
        if c['transform'] == 'shift':
            tr = Shift()
            t = at(view, np.array([20., 20.]) + off, 59.) - dict(upside=np.array([19, 0]), behind=np.array([0, 19])).get(view, 0) + 3
            start = PointCloud(np.arange(2)[:, None] * [0, 1.] + t[:, None] * [1, 0])
        else:
            cls = dict(similarity=DifferentiableAlignmentSimilarity, affine=DifferentiableAlignmentAffine)[c['transform']]
            src = at(view, CORNERS, 19.)
            tr = cls(PointCloud(src.copy()), PointCloud(src.copy()))
            start = PointCloud(at(view, home + off, 59.))
        alg = getattr(A, LK[c['alg']])(T, tr, getattr(R, c['residual'])(), eps=1e-6)
        r = alg.run(Image(seen(scene, view) * g + b), start, max_iters=25, return_costs=True)
        q = np.array(r._homogeneous_parameters if hasattr(r, '_homogeneous_parameters') else r.homogeneous_parameters)
        paths.append(q)
        costs.append(np.real(np.array(r.costs)))
        ends = at(view, np.array([[0., 0.], [19., 19.]]), 19.)
        # where the corners of the template are put along the way, as seen from the front
        way = [at(view, ends + v if c['transform'] == 'shift' else tr.from_vector(v).apply(ends), 59.) for v in q]
        places.append(np.array(way))
        end = at(view, tr.apply(ends), 59.)
    tag = '%s-%s' % (c['residual'], c['alg'])
    n = min(len(paths[0]), len(paths[1]), 6)
    if c['view'] != 'same':
        if not np.allclose(places[0][:n], places[1][:n], atol=1e-4):
            bad.append(('path-depends-on-view-' + tag, (tag, dict(c), places[0][:3].tolist(), places[1][:3].tolist())))
    elif not np.allclose(paths[0][:n], paths[1][:n], atol=1e-5):
        bad.append(('path-depends-on-intensities-' + tag, (tag, dict(c), paths[0][:3].tolist(), paths[1][:3].tolist())))
    if not np.allclose(costs[0][:n - 1] * c['factor'], costs[1][:n - 1], rtol=1e-5, atol=1e-6 * c['factor']):
        bad.append(('costs-depend-on-intensities-' + tag, (tag, dict(c), costs[0][:3].tolist(), costs[1][:3].tolist())))
    if np.abs(end - [[20, 20], [39, 39]]).max() > (.25 if c['residual'] == 'GradientCorrelation' else .05):
        bad.append(('does-not-find-' + tag, (tag, dict(c), end.tolist())))
    # (gradient correlation ends up going to and fro within a fraction of a pixel)
    if abs(costs[1][-1] - c['best']) > (.02 if c['residual'] == 'GradientCorrelation' else 2e-3) * max(1., costs[1][0]):
        bad.append(('cost-of-a-match-' + tag, (tag, dict(c), costs[1].tolist())))
    if not any(c['offset']) and len(paths[0]) != 2:
        bad.append(('does-not-stay-' + tag, (tag, dict(c), len(paths[0]), paths[0][:3].tolist())))
    return bad


def ecc(c):
    """One step of the enhanced correlation coefficient (Ecc.tla)."""
    from menpo.image import MaskedImage
    from menpofit.lk.residual import ECC
    bad = []
    size = (2, len(c['lin']) // 2)
    G = np.array(c['G'], float).T
    for gain, bias in ((1., 0.), (3.5, -20.)):
        lin = MaskedImage((np.array(c['lin'], float) * gain + bias).reshape((1,) + size))
        ref = MaskedImage((np.array(c['ref'], float) * 4 + 1).reshape((1,) + size))
        image, template = (ref, lin) if c['inverse'] else (lin, ref)
        before = image.pixels.copy(), template.pixels.copy(), G.copy()
        e = ECC()
        e.steepest_descent_images(lin, np.ones((2,) + size + (len(c['G']),)))
        with np.errstate(all='ignore'):
            H = e.hessian(G, sdi2=G) if gain == 1 else e.hessian(G)
            got = e.steepest_descent_update(G, image, template)
        if not np.allclose(H, rats(c['h']), atol=1e-9):
            bad.append(('ecc-hessian', (c, H.tolist())))
        if c['positive']:
            push = rats(c['push'])
        else:
            push = rats(c['push']) - max(np.sqrt(rats(c['l1'])), rats(c['l2'])) * rats(c['pull'])
        if c['inverse']:                  # (the step is taken the other way round)
            push = -push
        if not np.allclose(got, push, atol=1e-8 * max(1., np.abs(push).max())):
            bad.append(('ecc-%s-%s' % ('inverse' if c['inverse'] else 'forward', 'best' if c['positive'] else 'away'),
                        (c, got.tolist(), push.tolist())))
        if abs(e.cost_closure() - np.dot(c['lin'], c['ref']) / np.linalg.norm(c['lin']) / np.linalg.norm(c['ref'])) > 1e-9:
            bad.append(('ecc-cost', (c, float(e.cost_closure()))))
        if not all(np.array_equal(a, b) for a, b in zip(before, (image.pixels, template.pixels, G))):
            bad.append(('ecc-inputs-changed', c))
    return bad


def rats(x):
    x = np.array(x, float)
    return x[..., 0] / x[..., 1]


def ecc_rests(c):
    """Where an alignment by correlation comes to rest, the correlation is
    stationary - though the template cannot be matched (Ecc.tla, Rests)."""
    from scipy.ndimage import gaussian_filter
    from menpo.feature import gradient
    from menpo.image import Image, MaskedImage
    from menpo.shape import PointCloud
    from menpofit.lk import algorithm as A, residual as R
    from menpofit.transform import DifferentiableAlignmentSimilarity, DifferentiableAlignmentAffine
    rng = np.random.RandomState(c['texture'])
    nc = 1 + c['texture'] % 2
    scene = np.stack([gaussian_filter(rng.rand(60, 60), 3) for _ in range(nc)]) * 20
    other = np.stack([gaussian_filter(rng.rand(60, 60), 3) for _ in range(nc)]) * 20
    T = MaskedImage(scene[:, 20:40, 20:40] + c['noise'] * other[:, 20:40, 20:40])
    off = np.array(c['offset']) / 10.
    if c['transform'] == 'shift':
        tr = Shift()
        start = PointCloud(np.arange(2)[:, None] * [0, 1.] + (np.array([20., 20.]) + off + 3)[:, None] * [1, 0])
    else:
        cls = dict(similarity=DifferentiableAlignmentSimilarity, affine=DifferentiableAlignmentAffine)[c['transform']]
        tr = cls(PointCloud(CORNERS.copy()), PointCloud(CORNERS.copy()))
        start = PointCloud(CORNERS + 20. + off)
    alg = getattr(A, LK[c['alg']])(T, tr, R.ECC(), eps=1e-7)
    im = Image(scene)
    d0 = np.rollaxis(tr.d_dp(T.indices()), -1)
    d0 = d0.reshape(d0.shape[:1] + T.shape + d0.shape[-1:])
    r = alg.run(im, start, max_iters=80, return_costs=True)
    if len(r.costs) == 80:
        return [('', False)]
    W = im.warp_to_mask(T.mask, tr, warp_landmarks=False)

    def unit(x):
        x = x.as_vector()
        x = x - x.mean()
        return x / np.linalg.norm(x)
    if c['alg'] == 'fa':
        g = gradient(im).warp_to_mask(T.mask, tr, warp_landmarks=False)
        d = np.rollaxis(tr.d_dp(T.indices()), -1).reshape(d0.shape)
    else:
        g, d = gradient(T if c['alg'] == 'ic' else W), d0
        g = g.set_boundary_pixels()
    g = g.pixels.reshape((2, nc) + T.shape)
    G = (g[..., None] * d[:, None]).sum(0).reshape(-1, d.shape[-1])
    lin, ref = (unit(T), unit(W)) if c['alg'] == 'ic' else (unit(W), unit(T))
    rho = lin.dot(ref)
    left, size = G.T.dot(ref - rho * lin), np.linalg.norm(G, axis=0)
    if not np.all(np.abs(left) <= 1e-4 * size):
        return [('ecc-rests-elsewhere-' + c['alg'], (c, rho, (left / size).tolist()))]
    return []


def run_ecc(ctx):
    ones = [[a, b, x, y] for a in (1, -1) for b in (1, -1) for x in (1, -1) for y in (1, -1) if a + b + x + y == 0]
    sixes = [[5, -3, -1, -1], [1, 3, 1, -5], [-1, -1, 5, -3]]
    if ctx.thorough:
        sixes += [[-5, 1, 1, 3], [-3, 5, -1, -1], [3, 1, -5, 1]]
    cols = [[1, 0, 0, 0], [1, 2, 0, -1], [0, 1, -1, 1], [2, 0, 1, 1], [-1, 1, 2, 0]]
    if ctx.thorough:
        cols += [[0, 3, 1, -2], [1, 1, 1, 1]]
    cs = ctx.tlc('Ecc', dict(Patterns={tuple(x) for x in ones + sixes}, Slopes={tuple(x) for x in cols}, NParams={1, 2}),
                 invariants=['Case'], workers=8, timeout=850).cases
    verdicts(ctx, 'correlation', [(c,) for c in cs], pmap(ecc, cs, workers=8, chunk=64))
    jobs = [dict(alg=a, transform=t, texture=k, noise=n, offset=o) for a in sorted(LK) for t in ('shift', 'similarity', 'affine')
            for k in range(ctx.pick(3, 12)) for n in (.5, 1.) for o in ((0, 0), (6, -4))]
    rs = pmap(ecc_rests, jobs, workers=8, chunk=4)
    # (some are still on their way when the iterations end)
    under_way = [r[0] == 'ok' and r[1] == [('', False)] for r in rs]
    ctx.extra['ecc_settled'] = len(rs) - sum(under_way)
    verdicts(ctx, 'correlation-peak', [(j,) for j in jobs], [('ok', []) if u else r for u, r in zip(under_way, rs)])


def lk_world(rng, k):
    nc = 1 + k % 2
    h, w = 4, 5
    H, W = 7, 8
    q = 2 + (k % 3 == 2)
    base = rng.randint(0, 4, (nc, H, W))
    tpl = base[:, 1:1 + h, 2:2 + w].copy()
    ims = [base.tolist(), rng.randint(0, 4, (nc, H, W)).tolist()]
    D = np.zeros((q, h, w, 2), int)
    D[0, :, :, 0] = 1
    D[1, :, :, 1] = 1
    if q == 3:
        D[2, :, :, k % 2] = np.arange(w)[None, :] - 2 if k % 2 == 0 else np.arange(h)[:, None] - 1
    starts = [[1, 2], [0, 1], [2, 3], [1, 4]]
    starts = [s + [0] * (q - 2) for s in starts]
    if q == 3:
        starts.append([1, 2, 1])
    return dict(name='lk%d' % k, Images=ims, Template=tpl.tolist(), D=D.tolist(), Starts=starts, MaxIters=3 if q == 2 else 2)


def run_lk(ctx, rng):
    ws = [lk_world(rng, k) for k in range(ctx.pick(4, 24))]

    def tlc(w):
        return ctx.tlc('LkSteps', dict([(x, w[x]) for x in ('Images', 'Template', 'D', 'Starts', 'MaxIters')],
                                       Algs={'fa', 'fc', 'ic'}, Kernels=Raw('{<<1, 0>>, <<5, 1>>, <<5, -1>>}')),
                       invariants=['TypeOK', 'Settles', 'Stationary', 'Emit'], workers=3).cases
    with ThreadPoolExecutor(3) as ex:
        per = list(ex.map(tlc, ws))
    jobs = [(w, c) for w, cs in zip(ws, per) for c in cs]
    verdicts(ctx, 'lucas-kanade', jobs, pmap(lk, jobs, workers=8, chunk=8))
    cs = ctx.tlc('LkRelations', dict(Residuals={'SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation'}, Algs=set(LK),
                                     Gains={1, 3}, Biases={0, 7} if not ctx.thorough else {0, 7, -2}, Offsets=Raw('{<<0, 0>>, <<5, -4>>}' if not ctx.thorough else '{<<0, 0>>, <<5, -4>>, <<-2, 3>>, <<4, 5>>}'),
                                     Textures=set(range(ctx.pick(2, 8))), Transforms={'shift', 'similarity', 'affine'}, Views={'same', 'transposed', 'upside', 'behind'}),
                 invariants=['Sound', 'Back', 'Emit']).cases
    verdicts(ctx, 'intensities', [(c,) for c in cs], pmap(relation, cs, workers=8, chunk=8))


# ------------------------------------------------------ training images --
import functools
import zoo


@functools.lru_cache(2)
def full_model(name, sc, ch):
    from menpofit import aam, atm
    ims = zoo.train_images(n=5, n_channels=ch)
    kw = dict(scales=tuple(x / 10. for x in sc), diagonal=zoo.DIAG)
    if name.endswith(('masked', 'patch')):
        kw['patch_shape'] = (9, 6)
    if name.startswith('aam'):
        c = dict(aam=aam.HolisticAAM, aam_masked=aam.MaskedAAM, aam_linear=aam.LinearAAM,
                 aam_linmasked=aam.LinearMaskedAAM, aam_patch=aam.PatchAAM)[name]
        return c(ims, group='PTS', **kw), ims
    c = dict(atm=atm.HolisticATM, atm_masked=atm.MaskedATM, atm_linear=atm.LinearATM,
             atm_linmasked=atm.LinearMaskedATM, atm_patch=atm.PatchATM)[name]
    return c(ims[0], [i.landmarks['PTS'] for i in ims], group='PTS', **kw), ims


def own(cs):
    """Fits of one model to its own images."""
    from menpofit import aam, atm
    out = []
    c = cs[0]
    m, ims = full_model(c['m'], tuple(c['sc']), c['ch'])
    pk, F = (aam, aam.LucasKanadeAAMFitter) if c['m'][:3] == 'aam' else (atm, atm.LucasKanadeATMFitter)
    for c in cs:
        bad = []
        out.append(bad)
        f = F(m, getattr(pk, c['a']))
        im = ims[c['i']]
        gt = im.landmarks['PTS']
        start = gt.copy()
        start.points[...] += np.array(c['s']) / 10. * c['far']
        r = f.fit_from_shape(im, start, gt_shape=gt, max_iters=3 if c['home'] else 20, return_costs=True)
        away = np.abs(r.final_shape.points - gt.points).max()
        tag = '%s-%s' % (c['m'], c['a'])
        if not away <= c['reach'] / 1000.:
            bad.append((('leaves-' if c['home'] else 'not-back-') + tag, (tag, dict(c), away)))
        if c['home'] and len(c['sc']) == 1:
            n = float(np.sum(f.algorithms[-1].template.as_vector() ** 2))
            if not abs(r.costs[0]) <= c['cost'] * 1e-6 * n:
                bad.append(('cost-at-home-' + tag, (tag, dict(c), float(r.costs[0]), n)))
    return out


def run_own(ctx):
    cs = ctx.tlc('OwnImages', dict(Appearance=set(zoo.AAM_MODELS), Templates=set(zoo.ATM_MODELS), Optimisers=set(zoo.AAM_ALGS), TemplateOptimisers=set(zoo.ATM_ALGS),
                                   Starts=Raw('{<<0, 0>>, <<5, -4>>}' if not ctx.thorough else '{<<0, 0>>, <<5, -4>>, <<-7, 3>>, <<2, 6>>}'),
                                   Images={1} if not ctx.thorough else {0, 1, 2}, Scales=Raw('{<<10>>}' if not ctx.thorough else '{<<10>>, <<5, 10>>}'),
                                   Channels={1} if not ctx.thorough else {1, 3}),
                 invariants=['ComesCloser', 'Emit']).cases
    g = {}
    for c in cs:
        g.setdefault((c['m'], tuple(c['sc']), c['ch']), []).append(c)
    gs = list(g.values())
    jobs, out = [], []
    for v, (st, x) in zip(gs, pmap(own, gs, workers=8, chunk=1)):
        jobs += [(c,) for c in v]
        out += [(st, y) for y in x] if st == 'ok' else [(st, x)] * len(v)
    verdicts(ctx, 'own-images', jobs, out)


def run_ramps(ctx):
    import ramps
    cs = ctx.tlc('Ramps', dict(Models=set(zoo.AAM_MODELS) | set(zoo.ATM_MODELS) | {'aps'}, Optimisers=set(zoo.AAM_ALGS),
                               TemplateOptimisers=set(zoo.ATM_ALGS), PartOptimisers={'Inverse', 'Forward'},
                               Starts=Raw('{<<0, 0>>, <<4, -4>>, <<2, -5>>}' if not ctx.thorough else
                                          '{<<0, 0>>, <<4, -4>>, <<8, 4>>, <<0, -8>>, <<2, -5>>, <<-3, 1>>, <<-4, -8>>}'),
                               PatchSizes=Raw('{<<9, 6>>}' if not ctx.thorough else '{<<9, 6>>, <<5, 8>>, <<7, 7>>}'),
                               Channels={2} if not ctx.thorough else {1, 2, 3}),
                 invariants=['TypeOK', 'Determined', 'OneStepSuffices', 'CostsFall', 'Emit']).cases
    g = {}
    for c in cs:
        g.setdefault((c['m'], tuple(c['ps']), c['ch'], c['a']), []).append(c)
    gs = [g[k] for k in sorted(g)]
    jobs, out = [], []
    for v, (st, x) in zip(gs, pmap(ramps.check, gs, workers=8, chunk=2)):
        jobs += [(c,) for c in v]
        out += [(st, y) for y in x] if st == 'ok' else [(st, x)] * len(v)
    verdicts(ctx, 'even-images', jobs, out)


def run_springs(ctx, rng):
    """Pictorial structures in a small linear world (Springs.tla)."""
    import springs
    ws = [springs.world(rng, k) for k in range(ctx.pick(3, 18))]

    def tlc(w):
        return ctx.tlc('Springs', dict([(x, w[x]) for x in springs.CONSTANTS], Directions={'f', 'i'}, Free=Raw('{TRUE, FALSE}'),
                                       Weights=Raw('{<<1, 1>>, <<3, 1>>, <<1, 2>>}')),
                       invariants=['Stationary', 'AtRest', 'CostsNonNegative', 'Emit'], workers=3).cases
    with ThreadPoolExecutor(3) as ex:
        per = list(ex.map(tlc, ws))
    jobs = [(w, c) for w, cs in zip(ws, per) for c in cs]
    verdicts(ctx, 'springs', jobs, pmap(springs.check, jobs, workers=8, chunk=8))


def regular(w):
    """Inverse optimisers prepare at the mean: it has to determine a step."""
    D, m = np.array(w['DW'], float), np.array(w['Mean'], float)
    J = (np.roll(m, -1) - m)[:, None] * D[0] + m[:, None] * D[1]
    k = np.array(w['Sampled']) - 1
    J = J[k]
    A = np.array([[q2(x) for x in r] for r in w['Comps']])[:, k].T
    J = J - A.dot(np.linalg.lstsq(A, J, rcond=None)[0])
    return np.linalg.matrix_rank(J, 1e-6) == J.shape[1]


def run(ctx):
    warnings.simplefilter('ignore')
    rng = np.random.RandomState(ctx.seed)
    run_own(ctx)
    run_ramps(ctx)
    run_lk(ctx, rng)
    run_ecc(ctx)
    run_springs(ctx, rng)
    run_toy(ctx, rng)


def run_toy(ctx, rng):
    ws = []
    for k in range(ctx.pick(3, 12)):
        w = None
        while w is None or not regular(w):
            w = rand_world(rng, 'w%d' % k, 9, 5 + k % 2, 2, 4, two=k % 3 == 2, drop=k % 3)
        ws.append(w)
    kinds = ['po', 'sim', 'alt', 'mod', 'wib', 'atm']

    def tlc(w):
        return ctx.tlc('Lstsq', dict([(x, w[x]) for x in ('Images', 'Mean', 'Comps', 'Sampled', 'DW', 'Starts', 'EigA', 'NoiseA', 'EigS', 'NoiseS', 'MaxIters')],
                                     Kinds=set(kinds), Directions={'f', 'i'}, Priors=Raw('{TRUE, FALSE}')),
                       invariants=['FixedPoint', 'Stationary', 'CostNonNegative', 'Emit'], workers=3).cases
    with ThreadPoolExecutor(3) as ex:
        per = list(ex.map(tlc, ws))
    jobs = []
    for w, cs in zip(ws, per):
        jobs += [(w, c) for c in cs]
    ctx.extra['per_kind'] = {}
    for _, c in jobs:
        t = '%s-%s-%s' % (c['kind'], c['dir'], 'map' if c['prior'] else 'ml')
        ctx.extra['per_kind'][t] = ctx.extra['per_kind'].get(t, 0) + 1
    verdicts(ctx, 'gauss-newton', jobs, pmap(gn, jobs, workers=8, chunk=8))
