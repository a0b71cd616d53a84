"""P21: training pipeline building blocks (Pipeline.tla)."""
import copy
import functools
import numpy as np
from core import Raw, _tla, heard
from pool import pmap

BASE = [[0, 5], [4, 11], [10, 7], [6, 0], [5, 6]]
TRIS = [[1, 5, 2], [2, 5, 3], [3, 5, 4], [4, 5, 1]]
REFS = [[[0, 6], [4, 11], [10, 8], [7, 0], [5, 6]],
        [[3, 12], [9, 20], [18, 13], [12, 2], [9, 11]],
        [[-4, 3], [-1, 8], [6, 5], [2, -3], [0, 3]]]
IMAGES = [[[9, 16], [14, 23], [21, 18], [17, 9], [15, 17]],
          [[12, 21], [21, 33], [33, 25], [24, 11], [22, 22]],
          [[10, 13], [13, 20], [20, 17], [16, 8], [14, 14]],
          [[20, 30], [27, 40], [40, 33], [31, 17], [29, 29]]]
SHAPES = [(41, 46), (53, 49), (44, 40), (64, 71)]


def q2(x):
    return x[0] / x[1]


def trimesh(pts):
    from menpo.shape import TriMesh
    return TriMesh(np.array(pts, float), trilist=np.array(TRIS) - 1)


def images(order=None, extra=True, pts=IMAGES):
    """Coordinate images: row, column, identity."""
    from menpo.image import Image
    from menpo.shape import PointCloud
    out = []
    for k in range(len(pts)):
        h, w = SHAPES[k]
        px = np.zeros((3, h, w))
        px[0], px[1] = np.mgrid[:h, :w]
        px[2] = k + 1
        im = Image(px)
        im.landmarks['G'] = trimesh(pts[k])
        if extra:
            im.landmarks['other'] = PointCloud(np.array([[2., 3.], [5., 9.], [h - 4., w - 5.]]))
        out.append(im)
    return out if order is None else [out[k] for k in order]


def snap(ims):
    return [(i.pixels.copy(), dict((g, i.landmarks[g].points.copy()) for g in i.landmarks)) for i in ims]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x[0], y[0]) and set(x[1]) == set(y[1]) and
                                    all(np.array_equal(x[1][g], y[1][g]) for g in x[1]) for x, y in zip(a, b))


def shows(im, pts):
    return im.sample(pts, order=1)[:2].T


def half(i):
    return i.rescale(.5)


def keep(i):
    c = i.copy()
    c.pixels = c.pixels + 0.
    return c


def chain(log):
    from menpofit import builder as B
    ims = images()
    given = ims
    before0 = snap(given)
    want0 = [i.landmarks['G'].points.copy() for i in ims]
    other = [i.landmarks['other'].points.copy() for i in ims]
    shp = [np.array(i.shape, float) for i in ims]
    prev = [[1, 1]] * len(ims)
    # the outermost pixels of a resized image need not show anything, so with
    # every step a border as wide as its pixels drops out
    border = [0.] * len(ims)

    def clear(j, pts):
        return ((pts >= border[j]) & (pts <= shp[j] - 1 - border[j])).all(1)
    for k, st in enumerate(log):
        case = [s['step'] for s in log[:k + 1]]
        b = snap(ims)
        kind, v = st['step']['kind'], q2(st['step']['v'])
        arg = list(ims) if k % 2 else tuple(ims)
        loud = (k + len(log)) % 3 == 0
        tr = None
        if kind == 'rescale':
            ref = trimesh(REFS[st['step']['r'] - 1])
            r0 = ref.points.copy()
            out, said = heard(lambda: B.rescale_images_to_reference_shape(arg, 'G', ref, verbose=loud))
            if not np.array_equal(r0, ref.points):
                yield 'reference-changed', case
        elif kind == 'feature':
            seen = []

            def f(i):
                seen.append(i)
                return (keep if v == 1 else half)(i)
            out, said = heard(lambda: B.compute_features(arg, f, verbose=loud))
            if len(seen) != len(arg) or any(x is not y for x, y in zip(seen, arg)):
                yield 'features-once-each', case
        else:
            a = B.scale_images(arg, v)
            (out, tr), said = heard(lambda: B.scale_images(arg, v, return_transforms=True, verbose=loud))
            if not same(snap(a), snap(out)):
                yield 'scale-with-transforms', case
        if said.strip() and not loud:
            yield 'said', (case, said[:200])
        if len(out) != len(ims):
            yield 'one-to-one', (case, len(out))
            return
        if not same(b, snap(ims)) or not same(before0, snap(given)):
            yield 'input-changed', case
        for j, i in enumerate(out):
            if abs(i.pixels[2].mean() - (j + 1)) > 1e-6:
                yield 'order', (case, j, i.pixels[2].mean())
                continue
            L = i.landmarks['G'].points
            border[j] += 1.05 * ((shp[j] - 1) / (np.array(i.shape) - 1)).max()
            cl = clear(j, want0[j])
            if not np.allclose(shows(i, L)[cl], want0[j][cl], atol=1e-6):
                yield 'registered', (case, j, shows(i, L).tolist(), want0[j].tolist())
            O = i.landmarks['other'].points
            cl = clear(j, other[j])
            if not np.allclose(shows(i, O)[cl], other[j][cl], atol=1e-6):
                yield 'other-landmarks', (case, j)
            # the size asked for, up to one pixel of the image
            r = np.sqrt(q2(st['sq'][j]) / q2(prev[j]))
            if kind == 'rescale':
                # the size it has, pixels are whole
                r = np.linalg.norm(r0 - r0.mean(0)) / np.linalg.norm(b[j][1]['G'] - b[j][1]['G'].mean(0))
            s0, s1 = np.array(ims[j].shape, float), np.array(i.shape, float)
            if np.abs(s1 - r * s0).max() > 1.5:
                yield 'size', (case, j, s0.tolist(), s1.tolist(), r)
            f = (L - L.mean(0)).std(0) / (ims[j].landmarks['G'].points - ims[j].landmarks['G'].points.mean(0)).std(0)
            if np.abs(f / r - 1).max() > (np.abs(r - 1) + 1.1) / (r * (s0.min() - 1)):
                yield 'landmark-size', (case, j, f.tolist(), r)
            if tr is not None:
                # takes the scaled image back to the one it was made from
                x = tr[j].apply(L)
                if not np.allclose(x, ims[j].landmarks['G'].points, atol=1e-6):
                    yield 'transform', (case, j, x.tolist())
        ims = out
        prev = st['sq']
    return


def prepared(path):
    """Images after some preprocessing (all show what they showed before)."""
    from menpofit import builder as B
    ims = images()
    for p in path:
        if p == 'rescale':
            ims = B.rescale_images_to_reference_shape(ims, 'G', trimesh(REFS[1]))
        elif p == 'half':
            ims = B.compute_features(ims, half)
        else:
            ims = B.scale_images(ims, p)
    return ims


PATHS = [(), ('rescale', .75), (2,), ('half', 2), ('rescale', 'half', 1.5)]


def frame(c):
    from menpofit import builder as B
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA, DifferentiableThinPlateSplines as TPS
    from menpo.transform import ThinPlateSplines
    ThinPlateSplines.__init__.__defaults__ = (None, 1e-10)
    ref = trimesh(REFS[c['r'] - 1])
    r0 = ref.points.copy()
    case = dict((k, v) for k, v in c.items() if k != 'pixels')
    for group in (None, 'grp'):
        kw = {}
        if c['b'] != 3 or group:
            kw['boundary'] = c['b']
        if group:
            kw['group'] = group
        if c['kind'] == 'holistic':
            fr = B.build_reference_frame(ref, **kw)
        else:
            fr = B.build_patch_reference_frame(ref, patch_shape=tuple(c['z']), **kw)
        g = group or 'source'
        if not np.array_equal(ref.points, r0):
            yield 'reference-changed', case
        if list(fr.landmarks) != [g]:
            yield 'group', (case, list(fr.landmarks))
            return
        P = fr.landmarks[g].points
        off = P - r0
        if np.ptp(off, axis=0).max() > 1e-9:
            yield 'reference-deformed', case
            return
        if not np.allclose(P.min(0), c['margin'], atol=1e-9):
            yield 'margin', (case, P.min(0).tolist())
        # the frame ends the same margin beyond the last landmark, up to the
        # pixel that its size is rounded to
        over = np.array(fr.shape) - (P.max(0) + c['margin'])
        if over.min() < -1e-9 or over.max() > 1 + 1e-9:
            yield 'far-margin', (case, fr.shape, P.max(0).tolist())
        o = np.round(off[0]).astype(int)
        if np.abs(off[0] - o).max() > 1e-9:
            yield 'off-grid', case
            return
        mask = set(map(tuple, fr.mask.true_indices().tolist()))
        px = dict((tuple((np.array(p['q']) + o).tolist()), p) for p in c['pixels'])
        sure = set(q for q in px if px[q].get('sure', True))
        if not (sure <= mask <= set(px)):
            yield 'mask', (case, sorted(sure - mask)[:4], sorted(mask - set(px))[:4])
            return
    fr = (B.build_reference_frame(ref, boundary=c['b']) if c['kind'] == 'holistic' else
          B.build_patch_reference_frame(ref, boundary=c['b'], patch_shape=tuple(c['z'])))
    f0 = (fr.pixels.copy(), fr.mask.mask.copy(), fr.landmarks['source'].points.copy())
    tr = PWA if c['kind'] == 'holistic' else TPS
    lmq = [tuple((np.array(p) + o).tolist()) for p in REFS[c['r'] - 1]]
    order = fr.mask.true_indices()
    at = dict((tuple(q), n) for n, q in enumerate(order.tolist()))
    for path in PATHS:
        ims = prepared(path)
        b = snap(ims)
        for perm in ([0, 1, 2, 3], [2, 0]):
            sub = [ims[k] for k in perm]
            shapes = [i.landmarks['G'] for i in sub]
            ws, said = heard(lambda: B.warp_images(sub, shapes, fr, tr, verbose=len(sub) == 2))
            if len(ws) != len(sub):
                yield 'warp-one-to-one', case
                return
            for k, w in zip(perm, ws):
                if not np.array_equal(w.mask.mask, f0[1]) or not np.allclose(w.landmarks['source'].points, f0[2]):
                    yield 'warp-frame', (case, path, k)
                    continue
                if c['kind'] == 'holistic':
                    for q in at:
                        want = [q2(x) for x in px[q]['show'][k]] + [k + 1]
                        if not np.allclose(w.pixels[:, q[0], q[1]], want, atol=1e-6):
                            yield 'warped', (case, path, k, q, w.pixels[:, q[0], q[1]].tolist(), want)
                            return
                for q, L in zip(lmq, IMAGES[k]):
                    if q in at and not np.allclose(w.pixels[:, q[0], q[1]], list(L) + [k + 1], atol=1e-6):
                        yield 'warped-landmark', (case, path, k, q, w.pixels[:, q[0], q[1]].tolist(), L)
                        return
            ds = B.densify_shapes(shapes, fr, tr)
            if len(ds) != len(sub):
                yield 'densify-one-to-one', case
                return
            for k, d, s, i in zip(perm, ds, shapes, sub):
                n = s.n_points
                if d.n_points != n + len(order) or not np.allclose(d.points[:n], s.points, atol=1e-9):
                    yield 'dense-sparse', (case, path, k)
                    continue
                got = shows(i, d.points[n:])
                if c['kind'] == 'holistic':
                    want = np.array([[q2(x) for x in px[tuple(q)]['show'][k]] for q in order.tolist()])
                    if not np.allclose(got, want, atol=1e-6):
                        yield 'dense', (case, path, k)
                for q, L in zip(lmq, IMAGES[k]):
                    if q in at and not np.allclose(got[at[q]], L, atol=1e-6):
                        yield 'dense-landmark', (case, path, k, q)
        if not same(b, snap(ims)):
            yield 'input-changed', (case, path)
    if not (np.array_equal(fr.pixels, f0[0]) and np.array_equal(fr.mask.mask, f0[1]) and
            np.array_equal(fr.landmarks['source'].points, f0[2])):
        yield 'frame-changed', case


def ref(c):
    from menpofit import builder as B
    shapes = [trimesh(IMAGES[k - 1]) for k in c['set']]
    b = [s.points.copy() for s in shapes]
    want = np.array([[q2(x) for x in p] for p in c['mean']])
    g = np.sqrt(q2(c['grow2']))
    for D in ([None] if c['diagonal'] == 0 else [c['diagonal'], float(c['diagonal'])]):
        got = B.compute_reference_shape(shapes, D)
        if not np.allclose(got.points, want * g, atol=1e-8):
            yield 'reference-shape', (c, got.points.tolist())
        if D and abs(np.linalg.norm(got.range()) - D) > 1e-8:
            yield 'diagonal', (c, np.linalg.norm(got.range()))
        if not hasattr(got, 'trilist') or not np.array_equal(got.trilist, shapes[0].trilist):
            yield 'triangles', c
        ims = images([k - 1 for k in c['set']])
        if len(set(c['set'])) == len(ims):
            s0 = snap(ims)
            (r, norm), said = heard(lambda: B.normalization_wrt_reference_shape(ims, 'G', D, verbose=bool(D)))
            if not np.allclose(r.points, want * g, atol=1e-8):
                yield 'normalised-reference', c
            if len(norm) != len(ims):
                yield 'one-to-one', c
                continue
            for k, i in zip(c['set'], norm):
                L = i.landmarks['G'].points
                if abs(i.pixels[2].mean() - k) > 1e-6:
                    yield 'order', c
                elif not np.allclose(shows(i, L), IMAGES[k - 1], atol=1e-6):
                    yield 'registered', (c, k)
                a = np.linalg.norm(L - L.mean(0)) / np.linalg.norm(r.points - r.points.mean(0))
                x = np.array(IMAGES[k - 1], float)
                g1 = np.linalg.norm(r.points - r.points.mean(0)) / np.linalg.norm(x - x.mean(0))
                if abs(a - 1) > (abs(g1 - 1) + 1.1) / (g1 * (min(SHAPES[k - 1]) - 1)):
                    yield 'normalised-size', (c, k, a)
            if not same(s0, snap(ims)):
                yield 'input-changed', c
    if not all(np.array_equal(x, s.points) for x, s in zip(b, shapes)):
        yield 'input-changed', c


def patch(c):
    from menpofit import builder as B
    from menpo.shape import PointCloud
    ims = images()
    shapes = [PointCloud(np.array([[q2(v) for v in p['at']] for p in im])) for im in c['images']]
    b = snap(ims)
    b2 = [s.points.copy() for s in shapes]
    h, w = c['z']
    for norm in (None, lambda p: p * 2 - 1):
        for perm in ([0, 1, 2, 3], [3, 1]):
            kw = {} if norm is None else dict(normalise_function=norm)
            got, said = heard(lambda: B.extract_patches([ims[k] for k in perm], [shapes[k] for k in perm], (h, w),
                                                        verbose=len(perm) == 2, **kw))
            if len(got) != len(perm):
                yield 'one-to-one', c['z']
                return
            for k, g in zip(perm, got):
                px = g.pixels
                if px.shape != (5, 1, 3, h, w):
                    yield 'patches-shape', (c['z'], px.shape)
                    continue
                if norm is not None:
                    px = (px + 1) / 2
                for p in range(5):
                    y, x = c['images'][k][p]['corner']
                    yy, xx = np.mgrid[y:y + h, x:x + w]
                    if not (np.allclose(px[p, 0, 0], yy) and np.allclose(px[p, 0, 1], xx) and np.allclose(px[p, 0, 2], k + 1)):
                        yield 'patch', (c['z'], c['f'], k, p, px[p, 0, :2, 0, 0].tolist(), [y, x])
    if not same(b, snap(ims)) or not all(np.array_equal(x, s.points) for x, s in zip(b2, shapes)):
        yield 'input-changed', c['z']


def sim(a, b):
    """Residual of the best similarity that takes a to b, and whether it flips."""
    a, b = a - a.mean(0), b - b.mean(0)
    z, w = a[:, 0] + 1j * a[:, 1], b[:, 0] + 1j * b[:, 1]
    t = np.vdot(z, w) / np.vdot(z, z)
    return np.abs(t * z - w).max()


def align(c):
    from menpofit import builder as B
    shapes = [trimesh(p) for p in c['copies']]
    b = [s.points.copy() for s in shapes]
    got = B.align_shapes(shapes)
    if len(got) != len(shapes):
        yield 'one-to-one', c
        return
    size = np.linalg.norm(b[0] - b[0].mean(0))
    for k, g in enumerate(got):
        if np.abs(g.points.mean(0)).max() > 1e-8 * size:
            yield 'centred', (c, k, g.points.mean(0).tolist())
        if not np.allclose(g.points, got[0].points, atol=1e-4 * size):
            yield 'aligned', (c, k, g.points.tolist(), got[0].points.tolist())
        if sim(b[k], g.points) > 1e-6 * size:
            yield 'deformed', (c, k)
    # shapes that differ: each one is its own input, turned, grown and moved
    mixed = [trimesh(p) for p in (c['copies'] + IMAGES[:3])]
    got = B.align_shapes(mixed)
    for k, (s, g) in enumerate(zip(mixed, got)):
        if sim(s.points, g.points) > 1e-6 * size:
            yield 'mixed-deformed', (c, k)
    if len(got) != len(mixed):
        yield 'one-to-one', c
    ctr = np.mean([g.points for g in got], 0)
    for k, g in enumerate(got):
        # none of them fits the mean better after another similarity
        t = ctr - ctr.mean(0)
        p = g.points - g.points.mean(0)
        z, w = p[:, 0] + 1j * p[:, 1], t[:, 0] + 1j * t[:, 1]
        u = np.vdot(z, w) / np.vdot(z, z)
        if abs(np.angle(u)) > 1e-2:
            yield 'mixed-not-aligned', (c['copies'][0], k, float(np.angle(u)))
    if not all(np.array_equal(x, s.points) for x, s in zip(b, shapes)):
        yield 'input-changed', c


# ------------------------------------------------------ whole training chains --
def bary(pts, q):
    """Barycentric weights over the triangles, for a point of the frame."""
    best = None
    for t in np.array(TRIS) - 1:
        A = np.vstack([pts[t].T, np.ones(3)])
        w = np.linalg.solve(A, np.append(q, 1.))
        if best is None or w.min() > best[0]:
            full = np.zeros(len(pts))
            full[t] = w
            best = (w.min(), full)
    return best


def trained(arg):
    """Trained on coordinate images, the mean texture of every scale shows the
    mean of the places that the pixel comes from."""
    name, scales, diag, feats = arg
    from menpofit import aam, atm
    from menpofit.unified_aam_clm import UnifiedAAMCLM
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA
    from menpofit.transform import DifferentiableThinPlateSplines as TPS
    from menpo.transform import ThinPlateSplines
    ThinPlateSplines.__init__.__defaults__ = (None, 1e-10)
    bad = []
    ims = images()
    s0 = snap(ims)
    kw = dict(group='G', scales=scales, diagonal=diag)
    if diag is None:
        kw['reference_shape'] = trimesh(REFS[1])
    if feats is not None:
        kw['holistic_features'] = feats
    L = [np.array(p, float) for p in IMAGES]
    if name == 'aam':
        m = aam.HolisticAAM(ims, transform=PWA, **kw)
        tex = [a.mean() for a in m.appearance_models]
        want = np.mean(L, 0)
    elif name == 'linear':
        m = aam.LinearAAM(ims, transform=PWA, **kw)
        tex = [a.mean() for a in m.appearance_models]
        want = np.mean(L, 0)
    elif name == 'masked':
        m = aam.MaskedAAM(ims, patch_shape=[(3, 5)] * len(scales), **kw)
        tex = [a.mean() for a in m.appearance_models]
        want = np.mean(L, 0)
    elif name == 'unified':
        m = UnifiedAAMCLM(ims, transform=PWA, patch_shape=(3, 3), boundary=2 + len(scales), context_shape=(7, 7), sample_offsets=None, **kw)
        tex = [a.mean() for a in m.appearance_models]
        want = np.mean(L, 0)
    elif name == 'patch':
        m = aam.PatchAAM(ims, patch_shape=[(3, 5)] * len(scales), **kw)
        tex = [a.mean() for a in m.appearance_models]
        want = np.mean(L, 0)
    else:
        m = dict(atm=atm.HolisticATM, atm_linear=atm.LinearATM, atm_masked=atm.MaskedATM)[name](
            ims[1], [i.landmarks['G'] for i in ims],
            **dict(kw, **(dict(transform=PWA) if name != 'atm_masked' else dict(patch_shape=(5, 3)))))
        tex = m.warped_templates
        want = L[1]
    case = (name, scales, diag, str(feats))
    if not same(s0, snap(ims)):
        bad.append(('input-changed', case))
    if len(tex) != len(scales):
        bad.append(('models-per-scale', (case, len(tex))))
        return bad
    ref = m.reference_shape.points
    if diag is not None:
        r = np.mean(L, 0)
        r = r * (diag / np.linalg.norm(np.ptp(r, axis=0)))
        if not np.allclose(ref, r):
            bad.append(('reference-shape', (case, ref.tolist())))
    elif not np.allclose(ref, REFS[1]):
        bad.append(('reference-shape', (case, ref.tolist())))
    for j, t in enumerate(tex):
        sc = scales[j]
        if name == 'patch':
            # within half a pixel of the (scaled) image
            for p in range(5):
                got = t.pixels[p, 0, :2, 1, 2]
                grow = [np.linalg.norm(ref - ref.mean(0)) / np.linalg.norm(x - x.mean(0)) * sc *
                        (.5 if (feats[j] if type(feats) is list else feats) is half else 1) for x in L]
                tol = np.mean([.5 / g for g in grow]) * 1.1 + 1e-6
                if np.abs(got - want[p]).max() > tol:
                    bad.append(('trained-patch', (case, j, p, got.tolist(), want[p].tolist())))
            continue
        P = t.landmarks['source'].points
        if 'linear' not in name and not np.allclose(P - P.min(0), (ref - ref.min(0)) * sc, atol=1e-8):
            bad.append(('trained-frame', (case, j, P.tolist())))
            continue
        qs = t.mask.true_indices()
        if name == 'unified' and not np.allclose(P.min(0), 2 + len(scales)):
            bad.append(('trained-margin', (case, j, P.min(0).tolist())))
        if 'masked' in name:
            # only at the landmarks is a spline known exactly
            if sc != 1 or diag is not None or feats is half:
                continue
            lm = np.round(P).astype(int)
            for p, q in enumerate(lm):
                if not np.allclose(t.pixels[:2, q[0], q[1]], want[p], atol=1e-5):
                    bad.append(('trained-texture', (case, j, p, t.pixels[:2, q[0], q[1]].tolist(), want[p].tolist())))
            continue
        n = 0
        for q in qs:
            mn, w = bary(P, q)
            if mn < 1e-9:
                continue
            n += 1
            got = t.pixels[:2, q[0], q[1]]
            if not np.allclose(got, w.dot(want), atol=1e-5):
                bad.append(('trained-texture', (case, j, q.tolist(), got.tolist(), w.dot(want).tolist())))
                break
        if not n:
            bad.append(('no-texture', (case, j)))
    return bad


# ------------------------------------------------------- pictorial structures --
def pictorial(c):
    import pictorial as pic
    from menpo.shape import PointCloud, Tree
    n, nv = c['n'], len(c['mean'])
    want = sorted((a - 1, b - 1) for a, b in c['edges'])
    ways = [dict(scales=1., use_procrustes=False), dict(scales=(.5, 1.), use_procrustes=False),
            dict(scales=(1.,), use_procrustes=True)]
    how = ways[(c['s'] + len(c['given'])) % 3]
    loud = c['s'] % 4 == 0
    m, said = heard(lambda: pic.build(c, how, verbose=loud))
    case = dict(set=c['set'], given=c['given'], how=str(how))
    if said.strip() and not loud:
        yield 'said', (case, said[:200])
    ns = m.n_scales
    if not (len(m.deformation_graph) == len(m.deformation_models) == len(m.shape_models) == len(m.appearance_models) == ns):
        yield 'models-per-scale', case
        return
    for j in range(ns):
        g = m.deformation_graph[j]
        if sorted(map(tuple, np.array(g.edges).tolist())) != want:
            yield 'graph', (case, j, np.array(g.edges).tolist(), want)
            return
        if not c['given'] and (not isinstance(g, Tree) or g.root_vertex != 0):
            yield 'tree', (case, j)
        d = m.deformation_models[j]
        mean = d.mean_vector.reshape(-1, 2)
        sc = m.scales[j]
        P = np.asarray(d.precision)
        if how['use_procrustes']:
            from menpofit.builder import align_shapes
            sm = m.shape_models[j].model.mean().points
            al = np.array([a.points for a in align_shapes([PointCloud(np.array(p, float)) for p in c['set']])])
            if sim(sm, mean) > 1e-3 * np.abs(sm).max() or not np.allclose(mean, al.mean(0), atol=1e-6 * np.abs(al).max()):
                yield 'aligned-mean', (case, j, mean.tolist(), al.mean(0).tolist())
            # in units of their own spread the training shapes are spread alike
            r = (al - mean).reshape(len(al), -1)
            tot = np.einsum('ki,ij,kj', r, P, r)
            if abs(tot / (2. * (n - 1) * len(want)) - 1) > 1e-6:
                yield 'aligned-spread', (case, j, tot, 2 * (n - 1) * len(want))
            continue
        w = np.array(c['mean'], float) / n * sc
        if sc != 1:
            # the size of an image is whole
            if np.abs(mean - w).max() > .05 * np.abs(w).max():
                yield 'mean', (case, j, mean.tolist(), w.tolist())
            continue
        if not np.allclose(mean, w, atol=1e-6):
            yield 'mean', (case, j, mean.tolist(), w.tolist())
            continue
        for x, sco in zip(c['probes'], c['scores']):
            e = sum(s['num'] / s['den'] for s in sco) * (n - 1.) / n
            v = np.array(x, float) * sc
            got = [d.mahalanobis_distance(PointCloud(v), square_root=False) if hasattr(d, 'mahalanobis_distance') else None]
            r = (v - mean).ravel()
            got.append(float(r.dot(P.dot(r))))
            for q in got:
                if q is not None and abs(float(np.squeeze(q)) - e) > 1e-5 * (1 + e):
                    yield 'score', (case, j, x, got, e)
                    break



class Enough(Exception):
    pass


def smooth(c):
    """What the first feature is computed from."""
    from menpofit.unified_aam_clm import UnifiedAAMCLM
    from menpo.image import Image
    from menpo.shape import PointCloud
    s = c['sigma']
    g = q2(c['grow'])
    h, w = int(12 * s / g) + 11, int(12 * s / g) + 16
    tri = np.array([[h / 2. - 4, w / 2. - 4], [h / 2. + 4, w / 2. - 3], [h / 2. + 3, w / 2. + 4], [h / 2. - 3, w / 2. + 5], [h / 2., w / 2.]])
    got = []

    def f(im):
        got.append(im)
        if len(got) == 2:
            raise Enough()
        return im
    # channels in terms of the grown coordinates, about the middle of the image
    yy, xx = (np.mgrid[:h, :w] * g)
    cy, cx = (h // 2) * g, (w // 2) * g

    def surface(f, y, x):
        y, x = y - cy, x - cx
        return sum(q2(f[k]) * t for k, t in (('k', 1.), ('y', y), ('x', x), ('yy', y * y), ('xx', x * x), ('yx', y * x)))

    def show(fs, v):
        fs = [dict(f, k=[q2(f['k']) - v * (q2(f['yy']) + q2(f['xx'])), 1]) for f in fs]
        return np.stack([surface(f, yy, xx) for f in fs])
    given = show(c['im'], s * s)
    ims = []
    for k in range(2):
        im = Image(given.copy() + 5 * k)
        im.landmarks['G'] = trimesh(tri)
        ims.append(im)
    b = snap(ims)
    try:
        UnifiedAAMCLM(ims, group='G', scales=(1.,), sigma=s, holistic_features=f, patch_shape=(3, 3), context_shape=(7, 7),
                      reference_shape=trimesh(tri * g), sample_offsets=None)
    except Enough:
        pass
    case = dict((k, v) for k, v in c.items())
    if len(got) != 2:
        yield 'features', (case, len(got))
        return
    if not same(b, snap(ims)):
        yield 'input-changed', case
    for k, im in enumerate(got):
        if im.n_channels != len(c['im']):
            yield 'channels', (case, im.n_channels)
            return
        # where the given image is shown
        L = im.landmarks['G'].points
        f = np.ptp(L, axis=0) / np.ptp(tri, axis=0)
        o = L.mean(0) - f * tri.mean(0)
        m = int(np.ceil(4 * s)) + 3
        y, x = np.mgrid[m:im.shape[0] - m:3, m:im.shape[1] - m:3]
        if not y.size:
            raise RuntimeError('nothing left inside the border')
        for ch, fs in enumerate(c['im']):
            want = surface(fs, (y - o[0]) / f[0] * g, (x - o[1]) / f[1] * g) + 5 * k
            have = im.pixels[ch][y, x]
            rise = abs(q2(fs['yy'])) + abs(q2(fs['xx'])) + abs(q2(fs['yx']))
            # kernels are cut off and sampled, grown images interpolated
            tol = rise * (.06 * s * s + (0 if g == 1 else .6 + 2.5 * np.abs(f / g - 1).max() * s * s)) + 1e-6 * (1 + np.abs(want).max())
            if np.abs(have - want).max() > tol:
                p = np.unravel_index(np.abs(have - want).argmax(), have.shape)
                yield 'smoothed', (case, k, ch, float(have[p]), float(want[p]), tol)
                return


def run(ctx):
    sc = Raw('{<<1, 1>>, <<1, 2>>, <<3, 4>>, <<2, 1>>, <<24, 25>>, <<33, 32>>}')
    turns = [[dict(t=[1, 0], g=1, m=[0, 0])] * 2, [dict(t=[1, 0], g=1, m=[0, 0]), dict(t=[3, 4], g=1, m=[7, -3])],
             [dict(t=[0, 1], g=2, m=[5, 5]), dict(t=[4, 3], g=1, m=[0, 9]), dict(t=[1, 0], g=3, m=[-20, 4])],
             [dict(t=[12, 5], g=1, m=[1, 2]), dict(t=[4, -3], g=2, m=[0, 0]), dict(t=[0, -1], g=4, m=[3, 3]),
              dict(t=[1, 0], g=9, m=[100, 50])]]
    base = dict(Images=IMAGES, Refs=REFS, Tris=TRIS, Scales=sc, Bounds=Raw('{0, 3, 5}'),
                Sizes=Raw('{<<3, 3>>, <<5, 3>>, <<3, 7>>}'), Diagonals=Raw('{0, 7, 20, 55}'), MaxSteps=1,
                Turns=Raw('{' + ', '.join(_tla(t) for t in turns) + '}'))
    rng = np.random.RandomState(ctx.seed)

    def go(mode, fn, invs, **kw):
        cs = ctx.tlc('Pipeline', dict(base, Mode=mode, **kw), invariants=invs + ['Emit'], workers=8).cases
        return cs
    cs = go('chain', chain, ['SameSize'], MaxSteps=3)
    lim = ctx.pick(300, 1331)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    groups = [('chain', cs, chain), ('frame', go('frame', frame, ['Landmarks']), frame),
              ('ref', go('ref', ref, ['Diagonal']), ref), ('patch', go('patch', patch, ['Centred']), patch),
              ('align', go('align', align, ['SameShape']), align)]
    for g, cs, fn in groups:
        res = pmap(lambda c, fn=fn: list(fn(c)), cs, workers=8)

        def verdict(i):
            k, r = res[i]
            if k == 'err':
                raise RuntimeError(r[1])
            return r
        ctx.replay(g, range(len(cs)), verdict, sample=0)
        for c in cs[:2]:
            ctx.sample(g, c if g != 'frame' else dict((k, v) for k, v in c.items() if k != 'pixels'))
    import pictorial as pic
    cs = pic.cases(ctx)
    res3 = pmap(lambda c: list(pictorial(c)), cs, workers=8)

    def verdict3(i):
        k, r = res3[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('pictorial', range(len(cs)), verdict3, sample=0)
    for c in cs[:2]:
        ctx.sample('pictorial', c)
    surf = [dict(k=7, y=0, x=0, yy=0, xx=0, yx=0), dict(k=-40, y=0, x=0, yy=0, xx=0, yx=0), dict(k=0, y=1, x=-2, yy=0, xx=0, yx=0),
            dict(k=3, y=0, x=0, yy=1, xx=0, yx=0), dict(k=0, y=1, x=0, yy=0, xx=2, yx=0), dict(k=0, y=0, x=0, yy=1, xx=-1, yx=3)]
    cs4 = ctx.tlc('Smooth', dict(Surfaces=Raw('{' + ', '.join(_tla(f) for f in surf) + '}'), Channels=Raw('1..%d' % ctx.pick(2, 3)),
                                 Sigmas=Raw('{1, 2, 3}'), Grows=Raw('{<<1, 1>>, <<2, 1>>, <<1, 2>>}')),
                  invariants=['Emit'], properties=['Planes'], workers=8).cases
    lim = ctx.pick(150, 800)
    if len(cs4) > lim:
        cs4 = [cs4[i] for i in sorted(rng.choice(len(cs4), lim, replace=False))]
    res4 = pmap(lambda c: list(smooth(c)), cs4, workers=8)

    def verdict4(i):
        k, r = res4[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('smooth', range(len(cs4)), verdict4, sample=0)
    for c in cs4[:2]:
        ctx.sample('smooth', c)
    jobs = []
    for name in ('aam', 'linear', 'masked', 'unified', 'patch', 'atm', 'atm_linear', 'atm_masked'):
        combos = [((1,), None, None), ((.5, 1), 30, None), ((.5, .75, 1), 45, [keep, half, keep]), ((.5, 1), None, half)]
        for s, d, f in combos:
            jobs.append((name, s, d, f))
    res = pmap(trained, jobs, workers=8)

    def verdict(i):
        k, r = res[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('trained', range(len(jobs)), verdict, sample=0)
