"""P20: instances, random instances and appearance reconstructions."""
import copy
import functools
import numpy as np
from core import Raw
from pool import pmap

BASE = [[0, 5], [4, 11], [10, 7], [6, 0], [5, 6]]
TRI = [[1, 5, 2], [2, 5, 3], [3, 5, 4], [4, 5, 1]]       # counted from one
SIZES = [[5, 3], [3, 7], [5, 5]]
GRAPH = [[0, 1], [0, 2], [1, 3], [1, 4]]

FAMS = {'aam': 'pwa', 'aam_masked': 'tps', 'aam_patch': 'patch', 'atm': 'pwa', 'atm_masked': 'tps',
        'atm_patch': 'patch', 'unified': 'pwa', 'aps': 'shape', 'aps_directed': 'shape', 'clm': 'shape',
        'unified_shape': 'shape'}
APP = ('aam', 'aam_masked', 'aam_patch', 'unified')


def world(kind, app, n=3, flip=False):
    """n scales, no two alike in anything."""
    out = []
    grow = [1, 2, 1][:n] if not flip else [2, 1, 1][:n]
    if kind == 'tps':
        grow = [1] * n
    for j in range(n):
        mean = [[y * grow[j] + (j * p) % 2, x * grow[j] + (j + p) % 2 * (j > 0)] for p, (y, x) in enumerate(BASE)]
        off = [[8, 11], [9, 7], [12, 10]][j]
        cy, cx = [sum(m[d] for m in mean) // 5 for d in (0, 1)]
        # the instance is an affine image of the template: both transforms are
        # then exact everywhere
        rel = [[m[0] - cy, m[1] - cx] for m in mean]
        affine = [[[r[0], 0] for r in rel], [[r[1], 0] for r in rel], [[0, r[0]] for r in rel], [[0, r[1]] for r in rel]]
        free = [[[1 if p == 0 else 0, 1 if p == 2 else 0] for p in range(5)],
                [[0, 1 if p in (1, 4) else 0] for p in range(5)],
                [[1 if p in (1, 3) else 0, -1 if p == 0 else 0] for p in range(5)],
                [[1 if p == 4 else 0, -1 if p == 4 else 0] for p in range(5)]]
        k = [2, 4, 3][j] if not flip else [3, 2, 4][j]
        modes = (affine[:k] if kind == 'tps' else (free if kind == 'pwa' else affine[:2] + free)[:k])
        na = ([3, 2, 4][j] if not flip else [2, 4, 3][j]) if app else 0
        out.append(dict(mean=mean, template=[[m[0] + off[0], m[1] + off[1]] for m in mean], modes=modes,
                        sd=[1 + (j + i) % 2 for i in range(k)] if kind != 'tps' else [1] * k,
                        app=[1 + (i + 2 * j) % 4 for i in range(na)]))
    return out


@functools.lru_cache(None)
def base_model(name):
    import zoo
    if name == 'aps_directed':
        return None
    return zoo.model({'unified_shape': 'unified'}.get(name, name), (0.35, 0.6, 1.0))


def build(name, scales):
    """The real object, given models of which everything is known."""
    from menpo.shape import TriMesh, PointCloud, Tree, DirectedGraph
    from menpo.image import MaskedImage, Image
    from menpo.model import PCAModel
    from menpofit.modelinstance import PDM
    m = copy.deepcopy(base_model('aps' if name == 'aps_directed' else name))
    tri = np.array(TRI) - 1
    sms, ams, wts = [], [], []
    for j, s in enumerate(scales):
        mean = np.array(s['mean'], float)
        d = np.array(s['modes'], float).reshape(len(s['modes']), -1)
        nrm = np.linalg.norm(d, axis=1)
        sms.append(PDM(PCAModel.init_from_components(d / nrm[:, None], (np.array(s['sd']) * nrm) ** 2,
                                                     TriMesh(mean, trilist=tri), 20, True)))
        na, t = len(s['app']), np.array(s['template'], float)
        if FAMS[name] == 'patch':
            rng = np.random.RandomState(j)
            px = np.zeros((5, 1, 2 + na) + tuple(SIZES[j]))
            px[:, :, :2] = rng.randint(0, 9, (5, 1, 2) + tuple(SIZES[j]))
            tmp = Image(px)
            ch = 2
        else:
            h, w = [int(v) for v in t.max(0) + 14]
            px = np.zeros((2 + na, h, w))
            px[0], px[1] = np.mgrid[:h, :w]
            tmp = MaskedImage(px)
            tmp.landmarks['source'] = TriMesh(t, trilist=tri)
            ch = 0
        wts.append(tmp)
        if na:
            comps = []
            for i in range(na):
                c = np.zeros(px.shape)
                c[(slice(None),) * ch + (2 + i,)] = 1
                comps.append(c.ravel())
            comps = np.array(comps)
            nn = np.linalg.norm(comps, axis=1)
            ams.append(PCAModel.init_from_components(comps / nn[:, None], (np.array(s['app']) * nn) ** 2, tmp, 20, True))
            ams[-1].unit = nn
    m.shape_models = sms
    if hasattr(m, 'appearance_models') and ams:
        m.appearance_models = ams
    if hasattr(m, 'warped_templates'):
        m.warped_templates = wts
    m.scales = tuple([.35, .6, 1.][:len(scales)])
    if hasattr(m, 'patch_shape'):
        m.patch_shape = [tuple(z) for z in SIZES[:len(scales)]]
    if name == 'aps':
        m.deformation_graph = [Tree.init_from_edges(np.array(GRAPH), 5, 0)] * len(scales)
    if name == 'aps_directed':
        m.deformation_graph = [DirectedGraph.init_from_edges(np.array([[0, 1], [2, 1], [3, 4]]), 5)] * len(scales)
    return m, wts


def tex_of(px, ch, na):
    """Constant of every appearance channel (or None)."""
    out = []
    for i in range(na):
        v = px[(slice(None),) * ch + (2 + i,)]
        if np.ptp(v) > 1e-6:
            return None
        out.append(float(v.mean()))
    return np.array(out)


def frozen(m):
    out = []
    for sm in m.shape_models:
        out += [sm.model.mean().points.copy(), sm.model._components.copy(), sm.model._eigenvalues.copy()]
    for t in list(getattr(m, 'warped_templates', [])) + [a.mean() for a in getattr(m, 'appearance_models', [])]:
        out.append(t.pixels.copy())
    return out


def history(arg):
    name, scales, log = arg
    # menpo drops the singular values below 1e-4 of the spline system, which
    # would make affine maps inexact
    from menpo.transform import ThinPlateSplines
    ThinPlateSplines.__init__.__defaults__ = (None, 1e-10)
    m, wts = build(name, scales)
    kind = FAMS[name]
    app = name in APP
    rng = np.random.RandomState(len(str(log)) % 1000)
    bad = []
    keep = frozen(m)

    def weights(w, k):
        # the caller's spellings of "none given"
        if not w:
            return None if k % 2 == 0 else [0]
        return [list(map(float, w)), np.array(w, float), tuple(w)][k % 3 if k % 3 != 2 else 1]

    def check(got, shape, tex, j, pixels, case):
        s = scales[j]
        want = np.array(shape, float)
        na = len(s['app'])
        if kind == 'shape':
            if not np.allclose(got.points, want, atol=1e-9):
                bad.append(('shape', (case, got.points.tolist(), shape)))
            return
        if kind == 'patch':
            sh, im = got
            if not np.allclose(sh.points, want, atol=1e-9):
                bad.append(('shape', (case, sh.points.tolist(), shape)))
            exp = wts[j].pixels.copy()
            for i in range(na):
                exp[:, :, 2 + i] += tex[i]
            if im.pixels.shape != exp.shape or not np.allclose(im.pixels, exp, atol=1e-9):
                bad.append(('texture', case))
            return
        lm = got.landmarks['source'].points
        # the frame places the shape somewhere
        o = lm[0] - want[0]
        if not np.allclose(lm - o, want, atol=1e-7):
            bad.append(('shape', (case, lm.tolist(), shape)))
            return
        if lm.min() < 0 or np.any(lm.max(0) > np.array(got.shape) - 1):
            bad.append(('shape-outside-frame', (case, lm.tolist(), got.shape)))
        got_mask = set(map(tuple, got.mask.true_indices().tolist()))
        if not pixels:
            return
        if np.abs(o - np.round(o)).max() > 1e-7:
            return          # the frame is not on the pixel grid: nothing exact to compare
        oi = np.round(o).astype(int)
        sure = set((p['q'][0] + oi[0], p['q'][1] + oi[1]) for p in pixels if p['sure'])
        may = set((p['q'][0] + oi[0], p['q'][1] + oi[1]) for p in pixels)
        if not (sure <= got_mask <= may):
            bad.append(('frame-mask', (case, sorted(sure - got_mask)[:5], sorted(got_mask - may)[:5])))
            return
        for p in pixels:
            q = (p['q'][0] + oi[0], p['q'][1] + oi[1])
            if q not in got_mask:
                continue
            want_px = [p['t'][0][0] / p['t'][0][1], p['t'][1][0] / p['t'][1][1]] + list(tex)
            v = got.pixels[:, q[0], q[1]]
            if not np.allclose(v, want_px, atol=1e-6):
                bad.append(('texture', (case, q, v.tolist(), want_px)))
                return

    for k, st in enumerate(log):
        case = (name, len(scales), k, [dict((a, b) for a, b in x.items() if a not in ('pixels',)) for x in log[:k + 1]])
        j = st.get('j', 0) - 1
        if st['op'] == 'activate':
            tgt = m.shape_models[j] if st['kind'] == 'shape' else m.appearance_models[j]
            tgt.n_active_components = st['n']
        elif st['op'] == 'instance':
            kw = {}
            if st['i'] != -1 or k % 2:
                kw['scale_index'] = st['i']
            ws, wa = weights(st['ws'], k + len(st['ws'])), weights(st['wa'], k + st['j'])
            if ws is not None:
                kw['shape_weights'] = ws
            if app and wa is not None:
                kw['appearance_weights'] = wa
            if name in ('clm', 'unified_shape'):
                got = m.shape_instance(**kw)
            else:
                got = m.instance(**kw)
            check(got, st['shape'], st['tex'], j, st['pixels'], case)
            if name.startswith('aps'):
                g = m.instance(as_graph=True, **kw)
                check(g, st['shape'], st['tex'], j, (), case)
                dg = m.deformation_graph[j]
                if (g.adjacency_matrix != dg.adjacency_matrix).nnz:
                    bad.append(('graph', case))
                if hasattr(dg, 'root_vertex') and getattr(g, 'root_vertex', None) != dg.root_vertex:
                    bad.append(('graph', case))
        elif st['op'] == 'random':
            if name in ('clm', 'unified_shape') or name == 'aps_directed':
                continue
            bad += random(name, m, scales, st, kind, rng, wts, case)
        elif st['op'] == 'reconstruct':
            its = st['its']
            cs = []
            for c, of in zip(st['c'], st['of']):
                cs.append(np.array(c, float) * m.appearance_models[of - 1].unit[:len(c)])
            its_arg = list(its) if k % 2 else tuple(its)
            got = m.appearance_reconstructions(cs, its_arg)
            if len(got) != len(cs):
                bad.append(('one-per-state', (case, len(got), len(cs))))
                continue
            for x, c, of in zip(got, st['c'], st['of']):
                px = x if kind == 'patch' else x.pixels
                exp = wts[of - 1].pixels.copy()
                ch = 2 if kind == 'patch' else 0
                for i in range(len(c)):
                    exp[(slice(None),) * ch + (2 + i,)] += c[i]
                if px.shape != exp.shape or not np.allclose(px, exp, atol=1e-9):
                    bad.append(('reconstruction', (case, of, c)))
                    break
        if bad:
            break
    if not all(np.array_equal(a, b) for a, b in zip(keep, frozen(m))):
        bad.append(('models-changed', (name, [x['op'] for x in log])))
    return bad


def random(name, m, scales, st, kind, rng, wts, case):
    """A random instance shows one weight per active component."""
    from menpo.transform.piecewiseaffine.base import TriangleContainmentError
    bad = []
    j = st['j'] - 1
    s = scales[j]
    ns, na = st['nshape'], st['napp']
    D = (np.array(s['modes'], float) * np.array(s['sd'])[:, None, None]).reshape(len(s['modes']), -1).T
    seen_s, seen_a = [], []
    state = np.random.get_state()
    try:
        np.random.seed(rng.randint(10 ** 6))
        tries = 0
        while len(seen_s) < 6 and tries < 40:
            tries += 1
            try:
                got = m.random_instance(scale_index=st['i']) if st['i'] != -1 else m.random_instance()
            except TriangleContainmentError:
                continue        # a folded or degenerate draw: no frame to speak of
            if kind == 'shape':
                pts, tex = got.points, None
            elif kind == 'patch':
                pts, tex = got[0].points, tex_of(got[1].pixels, 2, len(s['app']))
                if tex is None:
                    bad.append(('random-texture', case))
                    return bad
            else:
                pts = got.landmarks['source'].points
                tex = None
                if s['app']:
                    # at the landmarks: far from them a wild draw may reach
                    # beyond the template
                    q = np.round(pts).astype(int)
                    v = got.pixels[2:, q[:, 0], q[:, 1]]
                    inside = got.mask.pixels[0, q[:, 0], q[:, 1]]
                    v = v[:, inside]
                    if not v.size:
                        continue
                    u = v[:, np.abs(v).max(0) > 0]
                    if not u.size or (kind == 'tps' and np.ptp(u, axis=1).max() > 1e-6):
                        continue
                    if np.ptp(v, axis=1).max() > 1e-6 and kind != 'tps':
                        bad.append(('random-texture', case))
                        return bad
                    tex = u.mean(1)
            d = (pts - np.array(s['mean'], float)).ravel()
            if kind in ('shape', 'patch'):
                A, y = D, d
            else:
                # up to where the frame placed it
                T = np.zeros((10, 2))
                T[0::2, 0] = 1
                T[1::2, 1] = 1
                A, y = np.hstack([D, T]), d
            w, res, rk, _ = np.linalg.lstsq(A, y, rcond=None)
            if rk < A.shape[1]:
                return bad      # weights cannot be told apart here
            if np.abs(A.dot(w) - y).max() > 1e-7:
                bad.append(('random-shape', (case, (A.dot(w) - y).tolist())))
                return bad
            seen_s.append(w[:len(s['modes'])])
            if tex is not None and len(s['app']):
                seen_a.append(tex / np.array(s['app'], float))
    finally:
        np.random.set_state(state)
    if not seen_s:
        return bad
    for nm, seen, n in (('shape', seen_s, ns), ('appearance', seen_a, na)):
        if not seen:
            continue
        X = np.array(seen)
        if np.abs(X[:, n:]).max(initial=0) > 1e-7:
            bad.append(('random-%s-beyond-active' % nm, (case, X.tolist())))
        if np.abs(X[:, :n]).min() < 1e-9:
            bad.append(('random-%s-missing-weight' % nm, (case, X.tolist())))
        if len(X) > 1 and min(np.abs(X[a] - X[b])[:n].min() for a in range(len(X)) for b in range(a)) < 1e-12:
            bad.append(('random-%s-repeats' % nm, (case, X.tolist())))
        # not draws of a standard normal by any standard
        if X[:, :n].size >= 12 and not .12 < np.mean(X[:, :n] ** 2) < 4:
            bad.append(('random-%s-spread' % nm, (case, X.tolist())))
    if seen_a:
        S, A = np.array(seen_s), np.array(seen_a)
        for a in range(min(ns, S.shape[1])):
            for b in range(na):
                if np.abs(S[:, a] - A[:, b]).max() < 1e-9:
                    bad.append(('random-shared-weight', (case, a, b)))
    return bad


# ------------------------------------------------------------ real fittings --
def fitted(arg):
    """Reconstructions of real fittings: one per recorded state, by the model
    of its scale; warped images: the image at the landmarks of each shape."""
    import zoo
    name, its = arg
    scales = (0.35, 0.6, 1.0)[-len(its):] if len(its) < 3 else (0.35, 0.6, 1.0)
    f = zoo.fitter(name, scales)
    fam = name.split('/')[0]
    model = zoo.model(fam, scales)
    im = zoo.test_images()[2]
    r = f.fit_from_shape(im, zoo.start_shape(im), max_iters=list(its))
    bad = []
    case = (name, its)
    ap = r.appearance_parameters
    if ap is not None:
        keep = [a.copy() for a in ap]
        got = f.appearance_reconstructions(ap, r.n_iters_per_scale)
        if len(got) != len(r.shape_parameters):
            bad.append(('one-per-state', (case, len(got), len(r.shape_parameters))))
        k = 0
        for j, n in enumerate(r.n_iters_per_scale):
            for _ in range(n + 1):
                if k >= len(got):
                    break
                exp = model.appearance_models[j].instance(ap[k])
                px = got[k].pixels if hasattr(got[k], 'pixels') else got[k]
                if px.shape != exp.pixels.shape or not np.allclose(px, exp.pixels):
                    bad.append(('reconstruction', (case, k, j)))
                k += 1
        if not all(np.array_equal(a, b) for a, b in zip(ap, keep)):
            bad.append(('parameters-changed', case))
    return bad


def run(ctx):
    rng = np.random.RandomState(ctx.seed)
    none = Raw('{<<>>}')
    jobs, runs = [], {}
    for fi, (name, kind) in enumerate(FAMS.items()):
        app = name in APP
        for n, flip in ctx.pick([(3, False)] if fi % 2 else [(3, True)], [(3, False), (3, True), (2, True), (1, False)]):
            w = world(kind, app, n, flip)
            ws = [[], [1], [0, 1], [1, 1], [-1], [1, 0, -1], [0, 0, 0, 1]] if kind != 'tps' else [[], [1], [0, 1], [1, 0, 1], [0, 0, 0, 1]]
            wa = [[], [2], [0, -1], [1, 2, 3]]
            tla = lambda xs: Raw('{' + ', '.join('<<%s>>' % ', '.join(map(str, x)) for x in xs) + '}')
            its = [[a, b, c][:n] for a in (0, 1, 3) for b in (0, 2) for c in (0, 1, 2)]
            its = [list(x) for x in sorted(set(map(tuple, its)))]
            base = dict(Kind=kind, Scales=w, Tris=TRI, WS=tla(ws), WA=tla(wa) if app else none,
                        Iters=tla(its), Sizes=SIZES)
            inv = ['InOrder', 'MeanIsTemplate', 'Padding', 'Emit']
            key = (kind, app, n, flip)
            if key not in runs:
                small = dict(base, WS=tla(ws[:4]), WA=tla(wa[:3]) if app else none, Iters=tla(its[:2] + its[-2:]))
                runs[key] = (ctx.tlc('Instances', dict(base, MaxOps=1), invariants=inv, workers=8).cases,
                             ctx.tlc('Instances', dict(small, MaxOps=2), invariants=inv, workers=8).cases,
                             ctx.tlc('Instances', dict(small, MaxOps=5), invariants=inv, workers=1,
                                     simulate=(ctx.pick(3, 20), 6)).cases)
            one, two, deep = runs[key]
            # what matters is what follows a change of the active counts
            two = [c for c in two if c[0]['op'] == 'activate' or c[0]['op'] != c[1]['op']]
            lim = ctx.pick(60, 400)
            if len(one) > 2 * lim:
                one = [one[i] for i in sorted(rng.choice(len(one), 2 * lim, replace=False))]
            if len(two) > lim:
                two = [two[i] for i in sorted(rng.choice(len(two), lim, replace=False))]
            if len(deep) > lim:
                deep = [deep[i] for i in sorted(rng.choice(len(deep), lim, replace=False))]
            jobs += [(name, w, c) for c in one + two + deep]
    for name in FAMS:
        base_model('aps' if name == 'aps_directed' else name)
    res = pmap(history, jobs, workers=8, chunk=8)

    def verdict(i):
        k, r = res[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('history', range(len(jobs)), verdict, sample=0)
    for j in jobs[::max(1, len(jobs) // 4)]:
        ctx.sample('history', dict(family=j[0], log=[dict((a, b) for a, b in x.items() if a != 'pixels') for x in j[2]]), 4)
    import zoo
    fits = [('aam/SimultaneousForwardCompositional', (1, 2, 3)), ('aam_patch/WibergInverseCompositional', (2, 1, 2)),
            ('unified/AlternatingRegularisedLandmarkMeanShift', (2, 3, 1)), ('aam_masked/AlternatingInverseCompositional', (1, 3, 2)),
            ('aam/ProjectOutInverseCompositional', (1, 1, 1))]
    if ctx.thorough:
        fits += [('%s/%s' % (m, a), (2, 1, 3)) for m in ('aam', 'aam_patch', 'aam_masked') for a in zoo.AAM_ALGS]
    out = pmap(fitted, fits, workers=8)

    def verdict2(i):
        k, r = out[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('fitted', range(len(fits)), verdict2, sample=0)
