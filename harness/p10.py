"""P10: delivery of training samples (Training.tla)."""
import itertools
import warnings
import numpy as np
from core import Raw
from pool import pmap
from p21 import trimesh, images, snap, same, sim, bary, half, keep, q2, REFS, SHAPES
from p21 import IMAGES as BASE

IMAGES = BASE + [[[14, 17], [17, 27], [25, 22], [20, 12], [19, 20]], [[11, 21], [18, 30], [24, 20], [17, 11], [16, 22]]]
SHAPES += [(40, 47), (42, 51)]
L = [np.array(p, float) for p in IMAGES]
PLAIN = ('aam', 'linear', 'masked', 'linmasked', 'patch', 'atm', 'atm_linear', 'atm_masked', 'atm_linmasked',
         'atm_patch', 'clm', 'aps', 'sdm', 'unified')


def who(pts):
    """Which image a shape (of any pose) belongs to; dense shapes start with it."""
    pts = np.asarray(pts)[:5]
    r = [sim(p, pts) / np.linalg.norm(pts - pts.mean(0)) for p in L]
    k = int(np.argmin(r))
    # whole pixels: not quite the same proportions
    return k + 1 if r[k] < .05 and r[k] < .5 * np.sort(r)[1] else None


def shower(im):
    v = im.pixels[2].mean()
    return int(round(v)) if abs(v - round(v)) < 1e-6 else None


def recorders():
    from menpofit.modelinstance import OrthoPDM

    class Shapes(OrthoPDM):
        def __init__(self, data, *a, **k):
            data = list(data)
            self.log = [('build', [who(s.points) for s in data])]
            super(Shapes, self).__init__(data, *a, **k)

        def increment(self, shapes, *a, **k):
            shapes = list(shapes)
            self.log.append(('increment', [who(s.points) for s in shapes]))
            return super(Shapes, self).increment(shapes, *a, **k)

    class Experts(object):
        def __init__(self, images, shapes, *a, **k):
            self.n_experts = 5
            self.log = []
            self.add('build', images, shapes)

        def add(self, kind, images, shapes):
            images, shapes = list(images), list(shapes)
            # the landmarks belong to the image
            self.log.append((kind, [shower(i) if who(s.points) == shower(i) else None for i, s in zip(images, shapes)]
                             + [None] * abs(len(images) - len(shapes))))

        def increment(self, images, shapes, *a, **k):
            self.add('increment', images, shapes)

    class Descent(object):
        def __init__(self, *a, **k):
            self.log = []

        def add(self, kind, images, gt, cur):
            ok = len(images) == len(gt) == len(cur)
            self.log.append((kind, [shower(i) if who(s.points) == shower(i) and len(c) == 2 else None
                                    for i, s, c in zip(images, gt, cur)] if ok else None))
            return cur

        def train(self, images, gt, cur, *a, **k):
            return self.add('build', images, gt, cur)

        def increment(self, images, gt, cur, *a, **k):
            return self.add('increment', images, gt, cur)
    return Shapes, Experts, Descent


def graphs():
    from menpo.shape import UndirectedGraph, Tree
    g = UndirectedGraph.init_from_edges(np.array([[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]]), 5)
    return g, Tree.init_from_edges(np.array([[0, 1], [1, 2], [2, 3], [3, 4]]), 5, 0)


def deliver(pool, ids, how, batch):
    ims = [pool[k - 1] for k in ids]
    return [ims, tuple(ims), iter(ims), (i for i in ims)][how % 4]


def one(arg):
    """Run a history; the clauses it breaks."""
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bad = history(arg)
    # what is said on the way
    said = arg[1]['said']
    if bool(said) != bool(out.getvalue().strip()):
        bad.append(('said-silent' if said else 'said-loud', (arg[0], arg[1]['calls'], arg[2], out.getvalue()[:300])))
    return bad


def history(arg):
    name, case, conf = arg
    scales, diag, feats, cap = conf
    from menpofit import aam, atm
    from menpofit.clm import CLM
    from menpofit.unified_aam_clm import UnifiedAAMCLM
    from menpofit.aps import GenerativeAPS
    from menpofit.sdm.fitter import SupervisedDescentFitter
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA
    from menpo.transform import ThinPlateSplines
    warnings.simplefilter('ignore')
    ThinPlateSplines.__init__.__defaults__ = (None, 1e-10)
    Shapes, Experts, Descent = recorders()
    calls, batches = case['calls'], case['batches']
    what = (name, [(c['op'], c['ids'], c['batch'], c['f']) for c in calls], conf)
    bad = []
    pool = images(pts=IMAGES)
    s0 = snap(pool)
    template = images(pts=IMAGES)[1]
    t0 = snap([template])
    loud = bool(case['said'])
    kw = dict(group='G', scales=scales, diagonal=diag, verbose=loud)
    if not case['ref']:
        kw['reference_shape'] = trimesh(REFS[1])
    if feats:
        kw['holistic_features'] = {'keep': keep, 'half': half, 'mixed': [keep, half, keep][:len(scales)]}[feats]
    if name != 'sdm':
        kw['max_shape_components'] = cap
    lin = 'lin' in name
    G = None
    frames = []
    for n, c in enumerate(calls):
        b = c['batch'] or None
        src = deliver(pool, c['ids'], n + len(c['ids']), b)
        if name.startswith('atm'):
            src = deliver([i.landmarks['G'] for i in pool], c['ids'], n + len(c['ids']), b)
        f = q2(c['f'])
        if c['op'] == 'train':
            k = dict(kw, batch_size=b)
            if name == 'unified':
                del k['batch_size']
            if name in ('aam', 'linear'):
                m = dict(aam=aam.HolisticAAM, linear=aam.LinearAAM)[name](
                    src, transform=PWA, shape_model_cls=Shapes, max_appearance_components=cap, **k)
            elif name in ('masked', 'linmasked', 'patch'):
                m = dict(masked=aam.MaskedAAM, linmasked=aam.LinearMaskedAAM, patch=aam.PatchAAM)[name](
                    src, patch_shape=[(3, 5)] * len(scales), max_appearance_components=cap, **k)
            elif name in ('atm', 'atm_linear'):
                m = dict(atm=atm.HolisticATM, atm_linear=atm.LinearATM)[name](template, src, transform=PWA, **k)
            elif name.startswith('atm'):
                m = dict(atm_masked=atm.MaskedATM, atm_linmasked=atm.LinearMaskedATM, atm_patch=atm.PatchATM)[name](
                    template, src, patch_shape=[(3, 5)] * len(scales), **k)
            elif name == 'clm':
                m = CLM(src, patch_shape=(3, 3), context_shape=(5, 5), expert_ensemble_cls=Experts,
                        shape_model_cls=Shapes, **k)
            elif name == 'aps':
                g, t = graphs()
                m = GenerativeAPS(src, patch_shape=(3, 5), appearance_graph=g, deformation_graph=t,
                                  n_appearance_components=2, can_be_incremented=True, **k)
            elif name == 'unified':
                m = UnifiedAAMCLM(list(src), patch_shape=(3, 3), context_shape=(5, 5), expert_ensemble_cls=Experts,
                                  shape_model_cls=Shapes, max_appearance_components=cap, transform=PWA, **k)
            else:
                m = SupervisedDescentFitter(src, sd_algorithm_cls=Descent, n_perturbations=2, **k)
        elif name in ('clm',):
            m.increment(src, group='G', shape_forgetting_factor=f, batch_size=b, verbose=loud)
        elif name == 'aps':
            m.increment(src, group='G', batch_size=b, verbose=loud)
        elif name.startswith('atm'):
            m.increment(template, src, group='G', shape_forgetting_factor=f, batch_size=b, verbose=loud)
        else:
            m.increment(src, group='G', shape_forgetting_factor=f, appearance_forgetting_factor=f, batch_size=b, verbose=loud)
        # ---- after every call
        done = [x for x in batches if x['call'] <= n + 1]
        last = done[-1]
        w = np.array([q2(x) for x in last['w']])
        if not same(s0, snap(pool)) or not same(t0, snap([template])):
            bad.append(('input-changed', what))
        r = np.array(m.reference_shape.points)
        if case['ref']:
            want = np.mean([L[k - 1] for k in case['ref']], 0)
            if diag:
                want = want * (diag / np.linalg.norm(np.ptp(want, axis=0)))
        else:
            want = np.array(REFS[1], float)
        if not np.allclose(r, want):
            bad.append(('reference-shape', (what, n, r.tolist(), want.tolist())))
        expect = [(x['kind'], x['ids']) for x in done]
        kinds = dict((a, getattr(m, a)) for a in ('shape_models', 'appearance_models', 'expert_ensembles',
                                                  'deformation_models', 'warped_templates', 'algorithms') if hasattr(m, a))
        for a, v in kinds.items():
            if len(v) != len(scales):
                bad.append(('models-per-scale', (what, n, a, len(v))))
                return bad
            for j, x in enumerate(v):
                if hasattr(x, 'log') and x.log != expect:
                    bad.append(('consumed', (what, n, a, j, list(x.log), expect)))
                pca = getattr(x, 'model', x)
                if a != 'warped_templates' and hasattr(pca, 'n_samples') and pca.n_samples != last['n']:
                    bad.append(('samples', (what, n, a, j, pca.n_samples, last['n'])))
                if cap and a in ('shape_models', 'appearance_models') and name != 'aps' and pca.n_components > cap:
                    bad.append(('components-cap', (what, n, a, j, pca.n_components)))
                if cap and a == 'shape_models' and name == 'aps' and pca.n_components > cap:
                    bad.append(('components-cap', (what, n, a, j, pca.n_components)))
        if name == 'sdm':
            continue
        # ---- the textures
        if name.startswith('atm'):
            tex, wm, wl = m.warped_templates, 2., L[1]
        elif hasattr(m, 'appearance_models'):
            tex, wm, wl = [x.mean() for x in m.appearance_models], w.dot(np.arange(1, 1 + len(L))), np.einsum('k,kpd->pd', w, L)
        else:
            continue
        for j, t in enumerate(tex):
            px = np.asarray(t.pixels if hasattr(t, 'pixels') else np.asarray(t).reshape(5, 1, 3, 3, 5), float)
            if name in ('patch', 'atm_patch', 'aps'):
                idc = px[:, 0, 2]
            else:
                qs = t.mask.true_indices()
                if 'masked' in name:
                    # the ends of the patches may lie outside of the images
                    qs = np.round(t.landmarks['source'].points).astype(int)
                idc = px[2][qs[:, 0], qs[:, 1]]
            if np.abs(idc - wm).max() > 1e-4:
                bad.append(('texture-mean', (what, n, j, float(idc.min()), float(idc.max()), wm)))
                continue
            if name in ('patch', 'atm_patch', 'aps'):
                continue
            P = t.landmarks['source'].points
            size = np.ptp(want, axis=0) * scales[j]
            # (linear models warp to the mean of the aligned shapes instead)
            if not lin and not np.allclose(np.ptp(P, axis=0), size):
                bad.append(('frame-size', (what, n, j, np.ptp(P, axis=0).tolist(), size.tolist())))
                continue
            key = (t.shape, t.mask.mask.tobytes(), t.landmarks['source'].points.round(9).tobytes())
            if len(frames) <= j:
                frames.append(key)
            elif frames[j] != key:
                bad.append(('frame-moved', (what, n, j)))
                continue
            if 'masked' in name:
                continue
            n_in = 0
            for q in qs[::3]:
                mn, bw = bary(P, q)
                if mn < 1e-9:
                    continue
                n_in += 1
                got = px[:2, q[0], q[1]]
                if not np.allclose(got, bw.dot(wl), atol=1e-4):
                    bad.append(('texture-place', (what, n, j, q.tolist(), got.tolist(), bw.dot(wl).tolist())))
                    break
            if not n_in:
                bad.append(('no-texture', (what, n, j)))
    return bad


CONFS = [((1,), None, '', None), ((.5, 1), 30, '', None), ((1, 1), None, 'half', 2), ((.5, .75, 1), 45, 'mixed', 3),
         ((1, .5), 26, 'keep', None)]


def run(ctx):
    rng = np.random.RandomState(ctx.seed)
    invs = ['OnceInOrder', 'CountsAll', 'Weights', 'Plain', 'OneBuild', 'Silent']

    def cases(**kw):
        c = dict(NImages=6, MinFirst=2, TrainLists=Raw('{<<1, 2, 3>>, <<3, 1, 2, 4, 5>>, <<6, 2, 4, 1>>}'),
                 IncLists=Raw('{<<4>>, <<5, 6>>, <<2, 5, 1>>, <<6, 5, 4, 1, 2>>}'), BatchSizes=Raw('{0, 1, 2, 3}'),
                 Forget=Raw('{<<1, 1>>, <<1, 2>>}'), MaxIncs=2, OwnReference=False)
        c.update(kw)
        return ctx.tlc('Training', c, invariants=invs + ['Emit'], properties=['RefFixed'], workers=8).cases
    full = cases() + cases(OwnReference=True)
    noff = cases(Forget=Raw('{<<1, 1>>}'), MinFirst=4, BatchSizes=Raw('{0, 1, 2, 4}')) + \
        cases(Forget=Raw('{<<1, 1>>}'), MinFirst=4, OwnReference=True, BatchSizes=Raw('{0, 1, 2, 4}'))
    trains = cases(MaxIncs=0, TrainLists=Raw('{<<1, 2>>, <<1, 2, 3>>, <<3, 1, 2, 4, 5>>, <<6, 2, 4, 1>>, <<6, 5, 4, 3, 2, 1>>, <<2, 2, 3>>}'))
    trains += cases(MaxIncs=0, OwnReference=True, MinFirst=1)
    per = ctx.pick(24, 500)
    jobs = []
    for name in PLAIN:
        whole = [c for c in trains if c['calls'][0]['batch'] == 0]   # neither trains in batches
        cs = dict(aps=noff, sdm=whole, unified=whole).get(name, full)
        pick = [cs[i] for i in rng.choice(len(cs), min(per, len(cs)), replace=False)]
        for i, c in enumerate(pick):
            jobs.append((name, c, CONFS[(i + len(name)) % len(CONFS)]))
    res = pmap(one, jobs, workers=8)

    def verdict(i):
        k, r = res[i]
        if k == 'err':
            return [('raises-' + r[0], (jobs[i][0], jobs[i][1]['calls'], jobs[i][2], r[1][-600:]))]
        return r
    for name in PLAIN:
        ctx.replay(name, [i for i in range(len(jobs)) if jobs[i][0] == name], verdict, sample=0)
        for j in jobs:
            if j[0] == name:
                ctx.sample(name, j[1])
                break
