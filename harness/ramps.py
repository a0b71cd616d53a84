"""Ramps.tla replayed: one Gauss-Newton step on evenly changing images."""
import functools
import numpy as np
import zoo
from p21 import q2

S = np.array([[y, x] for y in (20., 50., 80.) for x in (24., 56., 88.)]) + \
    np.array([[0, 1], [2, 0], [-1, 0], [1, 2], [0, 0], [0, -2], [-2, 0], [0, 3], [1, -1]])
AROUND = np.array([[2, 1], [-1, 2], [1, -3], [0, 2], [3, 0], [1, 1], [-2, 1], [1, 2], [2, -1]])
ACROSS = np.array([[2, 1], [1, -3]])
H, W = 110, 120


def modes(n):
    """Deformations that are no part of a similarity."""
    c = S - S.mean(0)
    sim = np.array([c.ravel(), np.stack([-c[:, 1], c[:, 0]], 1).ravel(),
                    np.tile([1., 0], 9), np.tile([0, 1.], 9)])
    V = np.random.RandomState(0).randn(n, 18)
    V -= V.dot(np.linalg.pinv(sim)).dot(sim)
    return [v.reshape(9, 2) * k for v, k in zip(V, (4, 3, 2))]


def shapes():
    from menpo.shape import PointCloud
    return [PointCloud(S + e * v) for v in modes(3) for e in (1, -1)]


def fixed():
    from menpofit.modelinstance import OrthoPDM

    class Fixed(OrthoPDM):
        """The shape model is not the one of the training images."""
        def __init__(self, data, max_n_components=None):
            OrthoPDM.__init__(self, shapes())
    return Fixed


def scene(patches, ch, extra=()):
    yy, xx = np.mgrid[:H, :W]
    if patches:
        lab = np.argmin([np.abs(yy - s[0]) + np.abs(xx - s[1]) for s in S], 0)
        px = []
        for c in range(ch):
            g = np.roll(AROUND, c, 0)
            px.append(g[lab, 0] * (yy - S[lab, 0]) + g[lab, 1] * (xx - S[lab, 1]))
    else:
        px = [g[0] * yy + g[1] * xx for g in ACROSS]
    return np.array(px, float) / 10.


def image(px):
    from menpo.image import Image
    from menpo.shape import PointCloud
    i = Image(px)
    i.landmarks['PTS'] = PointCloud(S.copy())
    return i


def parts(ps, ch):
    """Part-based: shapes and patches vary in pairs around the even image."""
    from menpo.shape import PointCloud, UndirectedGraph, Tree
    from menpofit.aps import GenerativeAPS
    r = np.random.RandomState(1)
    yy, xx = np.mgrid[:H, :W]
    ims = []
    for v in [np.zeros((9, 2), int)] + list(r.randint(-3, 4, (3, 9, 2))):
        n = r.randn(ch, 9, 41, 41) * .3 * np.any(v)
        for e in (1, -1):
            P = S + e * v
            lab = np.argmin([np.abs(yy - s[0]) + np.abs(xx - s[1]) for s in P], 0)
            oy, ox = yy - P[lab, 0], xx - P[lab, 1]
            px = [np.roll(AROUND, c, 0)[lab, 0] * oy + np.roll(AROUND, c, 0)[lab, 1] * ox for c in range(ch)]
            px = np.array(px, float) / 10.
            iy, ix = np.clip(oy, -20, 20).astype(int) + 20, np.clip(ox, -20, 20).astype(int) + 20
            px += e * n[:, lab, iy, ix]
            i = image(px)
            i.landmarks['PTS'] = PointCloud(P)
            ims.append(i)
    ims = ims[1:]
    g = UndirectedGraph.init_from_edges(np.array([[0, 1], [1, 2], [3, 4], [4, 5], [6, 7], [7, 8], [0, 3], [3, 6], [1, 4], [4, 7], [2, 5], [5, 8]]), 9)
    t = Tree.init_from_edges(np.array([[0, i] for i in range(1, 9)]), 9, 0)
    m = GenerativeAPS(ims, group='PTS', patch_shape=ps, appearance_graph=g, deformation_graph=t, n_appearance_components=3,
                      scales=(1.,), reference_shape=PointCloud(S))
    return m, ims[0]


@functools.lru_cache(2)
def model(m, ps, ch):
    from menpo.shape import PointCloud
    from menpofit import aam, atm
    if m == 'aps':
        return parts(ps, ch)
    px = scene(m.endswith('patch'), ch)
    # one more channel, the same everywhere in an image
    ims = [image(np.concatenate([px, np.full((1, H, W), b)])) for b in (0., 1., 3., -1.)]
    kw = dict(group='PTS', scales=(1.,), reference_shape=PointCloud(S))
    if ps != (0, 0):
        kw['patch_shape'] = ps
    c = dict(aam=aam.HolisticAAM, aam_masked=aam.MaskedAAM, aam_linear=aam.LinearAAM,
             aam_linmasked=aam.LinearMaskedAAM, aam_patch=aam.PatchAAM, atm=atm.HolisticATM,
             atm_masked=atm.MaskedATM, atm_linear=atm.LinearATM, atm_linmasked=atm.LinearMaskedATM,
             atm_patch=atm.PatchATM)[m]
    if m.startswith('aam_lin'):
        # (their shape model is built from the densified training shapes)
        for i, v in zip(ims[1:], modes(3)):
            i.landmarks['PTS'] = PointCloud(S + v)
        return c(ims, max_appearance_components=1, **kw), ims[1]
    if m.startswith('aam'):
        return c(ims, shape_model_cls=fixed(), **kw), ims[1]
    return c(ims[0], shapes(), **kw), ims[1]


def check(cs):
    """All starts of one optimiser."""
    from menpo.shape import PointCloud
    from menpofit import aam, atm, aps
    c = cs[0]
    mod, im = model(c['m'], tuple(c['ps']), c['ch'])
    if c['m'] == 'aps':
        f = aps.GaussNewtonAPSFitter(mod, getattr(aps, c['a']), weight=20.)
    elif c['template']:
        f = atm.LucasKanadeATMFitter(mod, getattr(atm, c['a']))
    else:
        f = aam.LucasKanadeAAMFitter(mod, getattr(aam, c['a']))
    tag = '%s-%s' % (c['m'], c['a'])
    out, per, ends = [], [], []
    home = S
    if c['m'].startswith('aam_lin'):
        home = f.fit_from_shape(im, PointCloud(S), max_iters=15).final_shape.points
    for c in cs:
        bad = []
        out.append(bad)
        d = np.array([q2(v) for v in c['start']])
        r = f.fit_from_shape(im, PointCloud(S + d), max_iters=2, return_costs=True)
        # the last two visited shapes, whatever came before them
        one, two = [s.points - home for s in r.shapes[-2:]]
        w = [np.abs(one).max(), np.abs(two).max()]
        if not (w[0] <= c['slack'][0] / 1000. * max(1., np.abs(d).max()) and w[1] <= c['slack'][1] / 1000.):
            bad.append(('first-step-' + tag, (tag, dict(c), w)))
        ends.append(one)
        per.append((c, float(np.real(r.costs[0])), float(np.real(r.costs[-1])), d))
    if c['m'] == 'aps' and c['a'] == 'Forward':
        # it looks at the image: one place, wherever it starts
        for i, (c, e) in enumerate(zip(cs, ends)):
            if not np.abs(e - ends[0]).max() < 1e-5:
                out[i].append(('first-step-depends-on-start-' + tag, (tag, dict(c), float(np.abs(e - ends[0]).max()))))
    if c['m'] != 'aps' and not c['m'].startswith('aam_lin'):
        # costs are proportional to what is seen of the displacements (on top
        # of the channel a template does not explain)
        base = [p for p in per if not p[3].any()]
        base = base[0][1] if base else 0.
        ref = max(per, key=lambda p: q2(p[0]['cost'][0]))
        k = (ref[1] - base) / q2(ref[0]['cost'][0])
        for i, (c, c0, c1, d) in enumerate(per):
            for got, want in ((c0, q2(c['cost'][0])), (c1, q2(c['cost'][-1]))):
                if not abs(got - base - k * want) <= .01 * k * max(want, .1):
                    out[i].append(('cost-' + tag, (tag, dict(c), got - base, k * want)))
    return out
