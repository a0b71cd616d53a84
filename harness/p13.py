"""P13 - landmark experts: filters, increments and response maps (Filter.tla)."""
import warnings
import numpy as np
from core import Raw


def rat(m):
    """Nested lists of <<num, den>> pairs -> floats."""
    m = np.array(m, float)
    return m[..., 0] / m[..., 1]


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, atol=tol * max(1., np.abs(b).max() if b.size else 1.), rtol=0)


# --------------------------------------------------------------- convolution
def conv(c):
    from menpo.image import Image
    from menpofit.math.fft_utils import fft_convolve2d, fft_convolve2d_sum
    x, f = np.array(c['x'], float), np.array(c['f'], float)
    kx, kf = x.copy(), f.copy()
    valid = None if c['valid'][0] == [] else np.array(c['valid'], float)
    sym = ''.join(['symm', 'etric'])     # names are compared by value
    for mode, boundary, want in (('full', 'constant', c['full']), ('same', 'constant', c['same']),
                                 ('same', sym, c['symm']), ('valid', 'constant', valid)):
        if want is None:
            continue
        want = np.array(want, float)
        mode = ''.join(list(mode))
        got = fft_convolve2d(x, f, mode=mode, boundary=boundary)
        if not eq(got, want):
            yield 'convolve-%s-%s' % (mode, boundary), (c, got.shape, got)
        got = fft_convolve2d_sum(x, f, mode=mode, boundary=boundary)
        if not eq(got, want.sum(0, keepdims=True)):
            yield 'convolve-sum-%s-%s' % (mode, boundary), (c, got.shape, got)
        got = fft_convolve2d_sum(x, f, mode=mode, boundary=boundary, keepdims=False)
        if not eq(got, want.sum(0)):
            yield 'convolve-sum-flat-%s' % mode, (c, got.shape)
    # default mode and boundary; images in, images out
    if not eq(fft_convolve2d(x, f), c['same']):
        yield 'convolve-default', c
    got = fft_convolve2d(Image(x.copy()), f)
    if not isinstance(got, Image) or not eq(got.pixels, c['same']):
        yield 'convolve-image', c
    got = fft_convolve2d_sum(Image(x.copy()), Image(f.copy()))
    if not isinstance(got, Image) or not eq(got.pixels, np.array(c['same'], float).sum(0, keepdims=True)):
        yield 'convolve-image', c
    # a filter given in the frequency domain, on a grid large enough
    from menpofit.math.fft_utils import pad
    e = [x.shape[1] + 2 * (f.shape[1] // 2), x.shape[2] + 2 * (f.shape[2] // 2)]
    F = np.fft.fft2(pad(f, e))
    if not eq(fft_convolve2d(x, F, fft_filter=True), c['same']):
        yield 'convolve-frequency', c
    if not eq(fft_convolve2d_sum(x, F, fft_filter=True), np.array(c['same'], float).sum(0, keepdims=True)):
        yield 'convolve-sum-frequency', c
    if not (np.array_equal(x, kx) and np.array_equal(f, kf)):
        yield 'argument-changed', c
    for fn in (fft_convolve2d, fft_convolve2d_sum):
        try:
            fn(x, f, mode='nope')
            yield 'accepts-mode', c
        except ValueError:
            pass


def pads(c):
    from menpofit.math.fft_utils import pad, crop
    n, e, lead = c['n'], c['e'], c['lead']
    for lead_dims in ((), (2,), (2, 3)):
        m = 1. + np.arange(int(np.prod(lead_dims + tuple(n)))).reshape(lead_dims + tuple(n))
        want = np.zeros(lead_dims + tuple(e))
        want[..., lead[0]:lead[0] + n[0], lead[1]:lead[1] + n[1]] = m
        got = pad(m, e)
        if not eq(got, want):
            yield 'pad', (c, got)
        if not eq(crop(want, n), m):
            yield 'crop', (c, crop(want, n))
        if not eq(crop(got, n), m):
            yield 'crop-pad', c


# ------------------------------------------------------- correlation filters
def filters(c):
    from menpofit.math import mosse, imosse, mccf, imccf
    g = c['g']
    X = np.array(c['xs'], float)
    y = np.array(g['y'], float)[None]
    l = c['l'][0] / c['l'][1]
    M, v, store, lead = rat(c['M']), rat(c['v']), np.array(c['ext']), c['lead']
    sol = np.linalg.solve(M, v)
    full = sol[store]
    cropped = full[:, lead[0]:lead[0] + g['hy'], lead[1]:lead[1] + g['wy']]
    kw = {} if g['b'] == 'constant' else dict(boundary=''.join(list(g['b'])))
    pairs = [(mccf, imccf, 'mccf')] if g['multi'] else [(mosse, imosse, 'mosse')]
    if g['nk'] == 1:
        pairs = [(mccf, imccf, 'mccf'), (mosse, imosse, 'mosse')]
    for tr, inc, nm in pairs:
        for crop_filter, want in ((False, full), (True, cropped)):
            k, keep = 0, X.copy()
            A = B = n = None
            for h in c['hist']:
                xs = X[k:k + h['n']].copy()
                if k == 0:
                    f, A, B = tr(xs, y, l=l, crop_filter=crop_filter, **kw)
                else:
                    f, A, B = inc(A, B, k, xs, y, l=l, crop_filter=crop_filter,
                                  f=h['f'][0] / h['f'][1], **kw)
                if not np.array_equal(xs, keep[k:k + h['n']]):
                    yield nm + '-argument-changed', c['hist']
                k += h['n']
            if not crop_filter and f.shape == full.shape:
                # the normal equations of the specification hold at the filter
                at = np.zeros(len(v))
                at[store.ravel()] = f.ravel()
                if np.abs(M.dot(at) - v).max() > 1e-8 * (1 + np.abs(v).max()):
                    yield nm + '-normal-equations', (g, c['hist'], f.tolist())
            if not eq(f, want, 1e-7):
                yield ('%s-%s' % (nm, 'increments' if len(c['hist']) > 1 else 'train'),
                       (g, c['hist'], crop_filter, f.shape, f.tolist(), want.tolist()))
        if len(c['hist']) == 1 and l == 0.01:
            f = tr(X, y, **kw)[0]
            if not eq(f, cropped, 1e-7):
                yield nm + '-default', (g, c['hist'])


def probs(c):
    from menpofit.clm.expert.base import probability_map
    r = np.array(c['r'], float).reshape(-1, 1, c['h'], c['w'])
    want = rat(c['p']).reshape(r.shape)
    for off, sc in ((0., 1.), (-5., 0.125), (1e3, 4.), (0., 2. ** -24), (0., 2. ** 30)):
        x = r * sc + off
        keep = x.copy()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = probability_map(x)
        if not eq(p, want, 1e-9):
            yield 'probability', (c, off, sc, np.asarray(p).tolist())
        if not np.array_equal(x, keep):
            yield 'argument-changed', c


# ------------------------------------------------------------------- experts
def dots(points, size, k=1):
    from menpo.image import Image
    px = np.zeros((k,) + size)
    for i in range(k):
        for p in points:
            px[i, int(p[0]), int(p[1])] = 1. + i
    return Image(px)


def identity(x):
    return x


def peak(c):
    from menpo.shape import PointCloud
    from menpofit.clm.expert.ensemble import (CorrelationFilterExpertEnsemble, generate_gaussian_response,
                                              channel_normalize_norm)
    P = np.array([[40., 45.], [70., 90.]])
    shape = PointCloud(P)
    moved = PointCloud(P + np.array(c['d'], float))
    p = tuple(c['p'])
    for nk, norm, mask in ((1, channel_normalize_norm, False), (2, identity, True)):
        im = dots(P, (110, 130), nk)
        e = CorrelationFilterExpertEnsemble([im], [shape], patch_shape=p, context_shape=tuple(c['ctx']),
                                            patch_normalisation=norm, cosine_mask=mask)
        r = e.predict_response(im, moved)
        pm = e.predict_probability(im, moved)
        if r.shape != (2, 1) + p or pm.shape != r.shape:
            yield 'response-shape', (c, r.shape)
            continue
        for i in range(2):
            a = np.unravel_index(np.argmax(r[i, 0]), p)
            b = np.unravel_index(np.argmax(pm[i, 0]), p)
            if list(map(int, a)) != c['at'] or a != b:
                yield 'peak', (c, nk, i, list(map(int, a)), list(map(int, b)))
        if pm.min() < 0 or not np.allclose(pm.sum(axis=(1, 2, 3)), 1.):
            yield 'probability', c
        # away from the border the response is the spatial correlation
        if p[0] % 2 and p[1] % 2:
            sp = e.spatial_filter_images
            if len(sp) != 2 or sp[0].pixels.shape != (nk,) + p:
                yield 'spatial-filter-shape', c
                continue
            from scipy.signal import correlate2d
            for i in range(2):
                pat = im.extract_patches(PointCloud(moved.points[i:i + 1]), patch_shape=p, as_single_array=True)
                pat = norm(pat.reshape((-1,) + p))
                want = sum(correlate2d(a, f, mode='same') for a, f in zip(pat, sp[i].pixels))
                if not np.allclose(want[1:-1, 1:-1], r[i, 0, 1:-1, 1:-1], atol=1e-8):
                    yield 'spatial-filter', (c, nk, i)
            # the filters in the frequency domain: channel by channel, the
            # amplitudes with which the frequencies -n//2 .. occur
            W = [np.exp(-2j * np.pi * np.outer(np.arange(n) - n // 2, np.arange(n)) / n) for n in p]
            fq = e.frequency_filter_images
            for i, (s, f) in enumerate(zip(sp, fq)):
                want = np.abs(np.einsum('ai,kij,bj->kab', W[0], s.pixels, W[1]))
                if len(fq) != 2 or f.pixels.shape != want.shape or not np.allclose(f.pixels, want, atol=1e-9):
                    yield 'frequency-filter', (c, nk, i)
    if c['d'] == [0, 0]:
        for cov in (1, 3):
            y = generate_gaussian_response(p, cov)
            q = [p[0] // 2, p[1] // 2]
            ii, jj = np.mgrid[:p[0], :p[1]]
            d2 = (ii - q[0]) ** 2 + (jj - q[1]) ** 2
            if y.shape != p or not np.allclose(y, np.exp(-d2 / (2. * cov)) / (2 * np.pi * cov), rtol=1e-9):
                yield 'gaussian', (c, cov)


def ensemble_splits(c):
    """Experts trained in increments are those trained on everything."""
    from menpo.shape import PointCloud
    from menpo.image import Image
    from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble
    from menpofit.clm.expert import IncrementalCorrelationFilterThinWrapper
    from menpofit.math import mosse, imosse
    n = sum(h['n'] for h in c['hist'])
    rng = np.random.RandomState(n)
    ims = [Image(rng.rand(c['nk'], 60, 64)) for _ in range(n)]
    shapes = [PointCloud(np.array([[20., 25], [33, 40], [28, 22]]) + rng.randint(-2, 3, (3, 2))) for _ in range(n)]
    kw = dict(patch_shape=tuple(c['p']), context_shape=tuple(2 * v for v in c['p']))
    offs = None if not c['offsets'] else np.array([[0., 0], [1, 0], [0, -2]])
    wrappers = [IncrementalCorrelationFilterThinWrapper]
    if c['nk'] == 1 and offs is None:
        wrappers.append(lambda: IncrementalCorrelationFilterThinWrapper(cf_callable=mosse, icf_callable=imosse))
    keep = [i.pixels.copy() for i in ims]
    for w in wrappers:
        whole = CorrelationFilterExpertEnsemble(ims, shapes, icf_cls=w, sample_offsets=offs, **kw)
        k = c['hist'][0]['n']
        part = CorrelationFilterExpertEnsemble(ims[:k], shapes[:k], icf_cls=w, sample_offsets=offs, **kw)
        for h in c['hist'][1:]:
            part.increment(ims[k:k + h['n']], shapes[k:k + h['n']])
            k += h['n']
        if part.n_images != n or whole.n_images != n:
            yield 'n-images', (c, part.n_images)
        if whole.n_experts != 3 or part.n_experts != 3:
            yield 'n-experts', c
        if whole.n_sample_offsets != (1 if offs is None else 3):
            yield 'n-sample-offsets', (c, whole.n_sample_offsets)
        for im, s in zip(ims, shapes):
            a, b = whole.predict_response(im, s), part.predict_response(im, s)
            if not np.allclose(a, b, atol=1e-8 * np.abs(a).max()):
                yield 'increments', (c, float(np.abs(a - b).max()), float(np.abs(a).max()))
    if not all(np.array_equal(a, i.pixels) for a, i in zip(keep, ims)):
        yield 'images-changed', c


BASE = dict(MaxX=1, MaxF=1, NSeeds=1, Geoms=Raw('{}'), Chans=Raw('{1}'), Forget=Raw('{<<1,1>>}'),
            MaxBatches=1, Lambda=Raw('<<1,1>>'), Bounds={'constant'})


def run(ctx):
    def tlc(mode, inv, **k):
        return ctx.tlc('Filter', dict(BASE, Mode=mode, **k), invariants=inv + ['Emit'],
                       workers=8, timeout=850).cases
    cs = tlc('conv', ['CommuteConv'], MaxX=ctx.pick(4, 5), MaxF=ctx.pick(4, 5), NSeeds=ctx.pick(2, 4),
             Chans=Raw('{1, 2}'))
    ctx.replay('convolution', cs, conv)
    ctx.replay('padding', tlc('pad', ['PadFits'], MaxX=ctx.pick(6, 9), MaxF=ctx.pick(7, 10)), pads)
    geoms = '{<<1,2,1,2>>, <<2,1,2,1>>, <<1,2,2,1>>, <<1,1,2,2>>, <<1,3,1,2>>, <<2,3,2,2>>, <<3,2,2,3>>%s}' % (
        ctx.pick('', ', <<1,2,1,3>>, <<1,4,1,2>>, <<3,1,2,1>>, <<3,3,2,2>>, <<4,3,2,3>>'))
    splits = {}
    for nk, l in ((1, '<<1,1>>'), (1, '<<1,4>>'), (1, '<<1,100>>'), (2, '<<1,1>>'), (2, '<<1,100>>')):
        g = geoms if nk == 1 else '{<<1,2,1,2>>, <<1,1,2,2>>, <<2,3,2,2>>}'
        fc = tlc('filter', ['BatchEqualsIncrements'], Geoms=Raw(g), Chans=Raw('{%d}' % nk), Lambda=Raw(l),
                 NSeeds=ctx.pick(1, 3), MaxBatches=ctx.pick(2, 3) if '100' not in l else 1,
                 Forget=Raw('{<<1,1>>, <<1,2>>}'), Bounds={'constant', 'symmetric'})
        ctx.replay('filters', fc, filters)
        for c in fc:
            if all(h['f'] == [1, 1] for h in c['hist']) and len(c['hist']) > 1:
                splits[tuple(h['n'] for h in c['hist'])] = c['hist']
    ctx.replay('probabilities', tlc('prob', ['ProbOk'], MaxX=3, NSeeds=ctx.pick(3, 6), Chans=Raw('{1, 2, 3}')), probs)
    pc = tlc('peak', [], MaxX=ctx.pick(8, 10), MaxF=ctx.pick(1, 2))
    rng = np.random.RandomState(ctx.seed)
    if len(pc) > ctx.pick(160, 1500):
        pc = [pc[i] for i in sorted(rng.choice(len(pc), ctx.pick(160, 1500), replace=False))]
    ctx.replay('peak', pc, peak)
    sc = [dict(hist=h, p=p, nk=k, offsets=o) for h in splits.values() for p in ((9, 9), (8, 7), (10, 6))
          for k in (1, 2) for o in (False, True)]
    ctx.replay('ensemble', sc, ensemble_splits)
