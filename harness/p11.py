"""P11: supervised descent cascades (Cascade.tla)."""
import warnings
import numpy as np
from core import Raw, heard
from pool import pmap
from p19 import close
from p21 import snap, same, q2, half, keep, shows, trimesh


def table(t):
    from menpo.image import Image
    return Image(np.tile(np.array([0] * 6 + list(t) + [0] * 6, float)[None, :, None], (1, 1, 3)))


def at(x):
    from menpo.shape import PointCloud
    return PointCloud(np.array([[6. + x, 1.]]))


def reported(said, n):
    """(stage, mean, standard deviation, median) of the errors reported."""
    import re
    num = r'(-?[\d.]+(?:e[-+]?\d+)?)'
    r = [tuple(map(float, m)) for m in re.findall(r'Iteration (\d+)\) - Training error -> mean: %s, std: %s, median: %s\.\n' % (num, num, num), said)]
    return r if len(r) == n else None


def exact(arg):
    bias, c = arg
    from menpofit.sdm.algorithm import NonParametricNewton
    n = max(t['stage'] for t in c['trail'])
    loud = (n + len(c['world'][0]['table']) + c['world'][0]['truth'] + c['world'][1]['starts'][0]) % 2 == 0
    alg = NonParametricNewton(patch_shape=(1, 1), n_iterations=n, bias=bias,
                              compute_error=lambda s, t, gt: np.abs(s.points - t.points).sum())
    if c['second']:
        # the algorithms build regressors that do not keep what an increment
        # needs (they refuse it); build ones that do
        from functools import partial
        from menpofit.math import IRLRegression
        alg._regressor_cls = partial(IRLRegression, alpha=0, bias=bias, incrementable=True)
    for b, W in ((1, c['world']), (2, c['second'])):
        if not W:
            break
        ims = [table(w['table']) for w in W]
        gts = [at(w['truth']) for w in W]
        cur = [[at(s) for s in w['starts']] for w in W]
        s0, g0 = snap(ims), [g.points.copy() for g in gts]
        try:
            out, said = heard(lambda: (alg.train if b == 1 else alg.increment)(ims, gts, cur, verbose=loud))
        except ValueError as e:
            if b == 2 and 'not incrementable' in str(e):
                return
            raise
        tr = [t for t in c['trail'] if t['batch'] == b]
        if len(alg.regressors) != n:
            yield 'stages', (bias, W, len(alg.regressors))
            return
        if not same(s0, snap(ims)) or not all(np.array_equal(x, g.points) for x, g in zip(g0, gts)):
            yield 'input-changed', (bias, W)
        for k, (r, t) in enumerate(zip(alg.regressors, tr)):
            seen = np.array([[0.], [1.], [2.], [5.]])
            want = np.hstack([seen * q2(t['a']) + q2(t['b']), 0 * seen])
            got = np.vstack([r.predict(f[None]) for f in seen])
            if not np.allclose(got, want, atol=1e-7):
                yield 'stage-regression', (bias, b, k, W, got.tolist(), want.tolist())
        if not loud and said.strip():
            yield 'silent', (bias, W, said[:200])
        if loud:
            es = [[q2(x) for x in t['err']] for t in tr]
            want = [(k, np.mean(e), np.std(e), np.median(e)) for k, e in enumerate(es)]
            if reported(said, len(want)) is None or not np.allclose(reported(said, len(want)), want, atol=2e-4):
                yield 'reported-errors', (bias, b, W, said[-400:], want)
        want = [q2(x) for im in tr[-1]['pos'] for x in im]
        got = [s.points[0, 0] - 6 for im in out for s in im]
        if [len(im) for im in out] != [len(w['starts']) for w in W] or not np.allclose(got, want, atol=1e-7) or not all(abs(s.points[0, 1] - 1) < 1e-9 for im in out for s in im):
            yield 'trained-positions', (bias, b, W, got, want)
    # fitting with the last regressors
    for i, ps in zip([table(w['table']) for w in c['world']], c['fits']):
        for p, f in enumerate(ps):
            if len(f) != n + 1:
                continue       # leaves the image: nothing is said about that
            start = at(p)
            r = alg.run(i, start)
            xs = [s.points[0, 0] - 6 for s in r.shapes]
            if len(xs) != n + 1:
                yield 'fit-shapes', (bias, c['world'], len(xs))
            elif not np.allclose(xs, [q2(x) for x in f], atol=1e-6):
                yield 'fit', (bias, c['world'], p, xs, f)
            if start.points[0, 0] != p + 6:
                yield 'start-changed', (bias, c['world'], p)


# ------------------------------------------------------ the real algorithms --
def algorithms():
    from menpofit.sdm import algorithm as A
    names = [n for n in dir(A) if n.startswith(('NonParametric', 'ParametricShape', 'ParametricAppearance', 'FullyParametric'))]
    return sorted(n for n in names if n.endswith(('Newton', 'Regression', 'OPP', 'GuassNewton')))


def features(alg, name, im, s, pf):
    """What the algorithm sees of an image at a shape."""
    x = im.extract_patches(s, patch_shape=alg.patch_shape, as_single_array=True)
    v = np.hstack([pf(p[0]).ravel() for p in x])
    if name.startswith(('ParametricAppearance', 'FullyParametric')):
        m = alg.appearance_model
        mu, B = m.mean(), m.components
        if 'ProjectOut' in name:
            return v - mu - B.T.dot(B.dot(v - mu))
        if 'MeanTemplate' in name:
            return v - mu
        return B.dot(v - mu)
    return v


def fake(patch):
    # few enough for the samples to determine the regressions
    return np.concatenate([patch.mean((1, 2)), patch[:, 0, 1], patch[:, 2, 4]])


def cascade(arg):
    """Replays the training of a real algorithm, stage by stage."""
    name, n_it, n_im, n_st, seed = arg
    import synth
    from menpofit.sdm import algorithm as A
    from menpofit import math as M
    from menpo.shape import PointCloud
    warnings.simplefilter('ignore')
    rng = np.random.RandomState(seed)
    bad = []
    ims = [i.copy() for i in synth.make_images(seed=5, n=n_im, tri=True)]
    gts = [PointCloud(i.landmarks['PTS'].points.copy()) for i in ims]
    starts = [[PointCloud(g.points + rng.uniform(-2, 2, size=(1, 2)) + rng.uniform(-.7, .7, g.points.shape))
               for _ in range(n_st[i])] for i, g in enumerate(gts)]
    kw = dict(patch_features=fake, patch_shape=(3, 5), n_iterations=n_it)
    par = name.startswith(('ParametricShape', 'FullyParametric'))
    import inspect
    if 'alpha' in inspect.signature(getattr(A, name).__init__).parameters:
        kw['alpha'] = 10.
    if 'alpha2' in inspect.signature(getattr(A, name).__init__).parameters:
        kw['alpha2'] = 7.
    alg = getattr(A, name)(**kw)
    s0 = snap(ims)
    case = (name, n_it, n_im, n_st, seed)
    loud = (len(name) + seed) % 2 == 0
    out, said = heard(lambda: alg.train(ims, gts, [[s.copy() for s in im] for im in starts], verbose=loud))
    if not loud and said.strip():
        bad.append(('silent', (case, said[:200])))
    figures = []
    if not same(s0, snap(ims)):
        bad.append(('input-changed', case))
    if len(alg.regressors) != n_it:
        bad.append(('stages', (case, len(alg.regressors))))
        return bad
    sm = alg.shape_model if par else None

    def params(s):
        sm.set_target(s)
        return sm.as_vector().copy()

    def inst(p):
        sm._from_vector_inplace(p)
        return sm.target.points.copy()
    if par and sm.model.n_samples != n_im:
        bad.append(('shape-model', case))
    if name.startswith(('ParametricAppearance', 'FullyParametric')):
        x = np.array([np.hstack([fake(p[0]).ravel() for p in im.extract_patches(g, patch_shape=(3, 5), as_single_array=True)])
                      for im, g in zip(ims, gts)])
        if alg.appearance_model.n_samples != n_im or not np.allclose(alg.appearance_model.mean(), x.mean(0)):
            bad.append(('appearance-model', case))

    def fresh():
        al = dict((k, kw[k]) for k in ('alpha', 'alpha2') if k in kw)
        if 'OPP' in name:
            return M.OPPRegression(bias=True)
        if 'PCR' in name:
            return M.PCRRegression(bias=True)
        if 'Optimal' in name:
            return M.OptimalLinearRegression(bias=True)
        return (M.IIRLRegression if 'alpha2' in kw else M.IRLRegression)(bias=True, **al)
    cur = [[s.points.copy() for s in im] for im in starts]
    flat = [(i, k) for i in range(n_im) for k in range(n_st[i])]
    for k in range(n_it):
        X = np.array([features(alg, name, ims[i], PointCloud(cur[i][j]), fake) for i, j in flat])
        if par:
            now = [params(PointCloud(cur[i][j])) for i, j in flat]
            D = np.array([params(gts[i]) - p for (i, j), p in zip(flat, now)])
        else:
            D = np.array([(gts[i].points - cur[i][j]).ravel() for i, j in flat])
        if 'alpha' not in kw and 'OPP' not in name:
            z = np.linalg.svd(X, compute_uv=False)
            if z[-1] < 1e-7 * z[0]:
                return bad          # the samples do not determine this stage
        r = fresh()
        r.train(X.copy(), D.copy())
        P, Q = r.predict(X.copy()), alg.regressors[k].predict(X.copy())
        # what the regressor of this stage answers on what it was trained on
        if P.shape != Q.shape or np.abs(P - Q).max() > 1e-4 * max(1., np.abs(P).max()):
            bad.append(('stage', (case, k, float(np.abs(P - Q).max()) if P.shape == Q.shape else None)))
            return bad
        for n, (i, j) in enumerate(flat):
            cur[i][j] = inst(now[n] + Q[n]) if par else cur[i][j] + Q[n].reshape(-1, 2)
        if loud:
            e = []
            for n, (i, j) in enumerate(flat):
                # shapes of the increments: estimated against true ones
                d = inst(Q[n]) - inst(D[n]) if par else (Q[n] - D[n]).reshape(-1, 2)
                e.append(np.linalg.norm(d, axis=1).mean() / np.ptp(gts[i].points, axis=0).mean())
            figures.append((k, np.mean(e), np.std(e), np.median(e)))
    if loud and (reported(said, n_it) is None or not np.allclose(reported(said, n_it), figures, atol=2e-4)):
        bad.append(('reported-errors', (case, said[-500:], figures)))
    err = max(np.abs(out[i][j].points - cur[i][j]).max() for i, j in flat)
    if err > 1e-4:
        bad.append(('trained-positions', (case, err)))
    # fitting replays the stages
    for i, j in flat[::7]:
        s = starts[i][j].copy()
        res = alg.run(ims[i], s)
        x, want = s.points.copy(), []
        if par:
            x = inst(params(PointCloud(x)))
        want.append(x)
        for k in range(n_it):
            q = np.asarray(alg.regressors[k].predict(features(alg, name, ims[i], PointCloud(x), fake)[None])).ravel()
            x = inst(params(PointCloud(x)) + q) if par else x + q.reshape(-1, 2)
            want.append(x)
        got = [z.points for z in res.shapes]
        # the start itself comes first
        if len(got) - len(want) not in (0, 1) or len(got) < n_it + 1:
            bad.append(('fit-shapes', (case, len(got))))
        elif np.abs(np.array(got[-len(want):]) - np.array(want)).max() > 1e-4:
            bad.append(('fit', (case, i, j, float(np.abs(np.array(got[-len(want):]) - np.array(want)).max()))))
        if not np.array_equal(s.points, starts[i][j].points):
            bad.append(('start-changed', case))
    return bad


# ------------------------------------------------------- cascades of a fitter --
def fitters(arg):
    """Replays what every scale of a fitter was trained on, stage by stage."""
    kind, model, n_it, sampling, seed = arg
    import copy
    import zoo
    from functools import partial
    from menpofit import aam, sdm, math as M
    from menpofit.sdm.algorithm.base import BaseSupervisedDescentAlgorithm as Base
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA
    from menpo.shape import PointCloud, TriMesh
    warnings.simplefilter('ignore')
    np.random.seed(seed)
    case, bad = arg, []
    seen = []

    def watch(cls):
        class Watched(cls):
            def train(self, images, gts, cur, **k):
                rec = [self, [i.copy() for i in images], [g.points.copy() for g in gts], [[s.points.copy() for s in im] for im in cur]]
                out = super(Watched, self).train(images, gts, cur, **k)
                seen.append(rec + [[[s.points.copy() for s in im] for im in out]])
                return out
        return Watched
    ims = zoo.train_images()[:5]
    s0 = snap(ims)
    scales = zoo.SCALES[:len(n_it)] if len(n_it) > 1 else (1.,)
    kw = dict(group='PTS', n_iterations=list(n_it), n_perturbations=3)
    loud = seed % 2 == 1
    if model:
        mod = copy.deepcopy(zoo.model(model, scales))
        al = dict(alpha=10.)
        if 'GaussNewton' in kind:
            al['alpha2'] = 7.
        f, said = heard(lambda: aam.SupervisedDescentAAMFitter(
            ims, mod, sampling=sampling, n_appearance=3, sd_algorithm_cls=partial(watch(getattr(aam, kind)), **al), verbose=loud, **kw))
    else:
        al = dict(alpha=dict(SDM=0, RegularizedSDM=5., default=1e-4)[kind])
        a = dict(alpha=5.) if kind == 'RegularizedSDM' else {}
        import menpofit.sdm.algorithm.nonparametric as np_
        old = np_.NonParametricNewton.train

        def train(self, images, gts, cur, **k):
            rec = [self, [i.copy() for i in images], [g.points.copy() for g in gts], [[s.points.copy() for s in im] for im in cur]]
            out = old(self, images, gts, cur, **k)
            seen.append(rec + [[[s.points.copy() for s in im] for im in out]])
            return out
        np_.NonParametricNewton.train = train
        try:
            f, said = heard(lambda: getattr(sdm, 'SDM' if kind == 'SDM' else 'RegularizedSDM')(
                ims, scales=scales, diagonal=zoo.DIAG, patch_shape=(3, 5), patch_features=fake, verbose=loud, **dict(kw, **a)))
        finally:
            np_.NonParametricNewton.train = old
    if bool(said.strip()) != loud:
        bad.append(('said', (case, said[:100])))
    if not same(s0, snap(ims)):
        bad.append(('input-changed', case))
    if len(seen) != len(n_it) or [len(r[0].regressors) for r in seen] != list(n_it) or \
            [id(r[0]) for r in seen] != [id(a) for a in f.algorithms]:
        bad.append(('stages', (case, [len(r[0].regressors) for r in seen])))
        return bad
    figures = []
    for j, (alg, images, gts, cur, out) in enumerate(seen):
        if model:
            pdm = copy.deepcopy(alg.transform)
            am = mod.appearance_models[j]
            A, mu, t = am.components.T, am.mean().as_vector(), am.mean()
            keep_ = np.arange(len(mu))
            if sampling is not None:
                if model == 'aam_patch':
                    # positions of a patch
                    keep_ = keep_[keep_ % (7 * 7) % sampling == 0]
                else:
                    keep_ = keep_[::sampling]

            def params(pts):
                pdm.set_target(PointCloud(pts))
                return pdm.as_vector().copy()

            def inst(p):
                pdm._from_vector_inplace(p.copy())
                return pdm.target.points.copy()

            def feats(im, pts):
                r = inst(params(pts))
                if model == 'aam_patch':
                    v = im.extract_patches(PointCloud(r), patch_shape=(7, 7), as_single_array=True).ravel()
                elif model == 'aam_masked':
                    alg.interface.transform.set_target(PointCloud(pts))
                    v = alg.interface.warp(im).as_vector()
                else:
                    src = t.landmarks['source']
                    v = im.warp_to_mask(t.mask, PWA(src, TriMesh(r, trilist=src.trilist)), warp_landmarks=False).as_vector()
                e = v[keep_] - mu[keep_]
                B = A[keep_]
                if 'MeanTemplate' in kind:
                    return e
                c = np.linalg.lstsq(B, e, rcond=None)[0]
                return c if 'Weights' in kind else e - B.dot(c)
        else:
            params, inst = np.ravel, lambda p: p.reshape(-1, 2)

            def feats(im, pts):
                x = im.extract_patches(PointCloud(pts), patch_shape=(3, 5), as_single_array=True)
                return np.hstack([fake(q[0]).ravel() for q in x])
        flat = [(i, k) for i in range(len(images)) for k in range(len(cur[i]))]
        if any(len(c) != 3 for c in cur) or len(images) != 5:
            bad.append(('starts', (case, [len(c) for c in cur])))
            return bad
        pos = [[x.copy() for x in im] for im in cur]
        for k in range(n_it[j]):
            X = np.array([feats(images[i], pos[i][m]) for i, m in flat])
            now = [params(pos[i][m]) for i, m in flat]
            D = np.array([params(gts[i]) - p for (i, m), p in zip(flat, now)])
            r = (M.IIRLRegression if 'alpha2' in al else M.IRLRegression)(bias=True, **al)
            if al['alpha'] > .01:
                r.train(X.copy(), D.copy())
                P, Q = r.predict(X.copy()), alg.regressors[k].predict(X.copy())
                if P.shape != Q.shape or np.abs(P - Q).max() > 1e-4 * max(1., np.abs(P).max()):
                    bad.append(('stage', (case, j, k, float(np.abs(P - Q).max()) if P.shape == Q.shape else (P.shape, Q.shape))))
                    return bad
            else:
                Q = alg.regressors[k].predict(X.copy())
            for n, (i, m) in enumerate(flat):
                pos[i][m] = inst(now[n] + Q[n])
            if loud:
                # shapes of the increments: estimated against true ones
                e = [np.linalg.norm(inst(Q[n]) - inst(D[n]), axis=1).mean() / np.ptp(gts[i], axis=0).mean() for n, (i, m) in enumerate(flat)]
                figures.append((k, np.mean(e), np.std(e), np.median(e)))
        err = max(np.abs(out[i][m] - pos[i][m]).max() for i, m in flat)
        if err > 1e-4:
            bad.append(('trained-positions', (case, j, err)))
        for i, m in flat[::4]:
            s = PointCloud(cur[i][m].copy())
            res = alg.run(images[i], s)
            want = [inst(params(s.points)) if model else s.points]
            for k in range(n_it[j]):
                q = np.ravel(alg.regressors[k].predict(feats(images[i], want[-1])[None]))
                want.append(inst(params(want[-1]) + q))
            got = [z.points for z in res.shapes]
            if len(got) - len(want) not in (0, 1) or len(got) < len(want):
                bad.append(('fit-shapes', (case, j, len(got))))
            elif np.abs(np.array(got[-len(want):]) - np.array(want)).max() > 1e-4:
                bad.append(('fit', (case, j, i, m, float(np.abs(np.array(got[-len(want):]) - np.array(want)).max()))))
            if not np.array_equal(s.points, cur[i][m]):
                bad.append(('start-changed', case))
    if loud and (reported(said, sum(n_it)) is None or not np.allclose(reported(said, sum(n_it)), figures, atol=2e-4)):
        bad.append(('reported-errors', (case, said[-300:], figures)))
    return bad


# -------------------------------------------------------- scales of a fitter --
PTS = [[[16, 20], [16, 40], [34, 40], [34, 20], [25, 30]], [[22, 18], [22, 40], [44, 40], [44, 18], [30, 30]],
       [[19, 22], [19, 45], [38, 45], [38, 22], [27, 31]]]
SIZES = [(52, 61), (66, 60), (58, 66)]


def world(boxes):
    from menpo.image import Image
    from menpo.shape import PointCloud
    out = []
    for k, p in enumerate(PTS):
        h, w = SIZES[k]
        px = np.zeros((3, h, w))
        px[0], px[1] = np.mgrid[:h, :w]
        px[2] = k + 1
        im = Image(px)
        im.landmarks['G'] = trimesh(p)
        bb = np.array([[min(q[0] for q in p), min(q[1] for q in p)], [max(q[0] for q in p), max(q[1] for q in p)]], float)
        for b in range(boxes[k]):
            s = bb + [b + 1, -2 * b + 1]
            im.landmarks['box_%d' % b] = PointCloud(np.array([s[0], [s[1, 0], s[0, 1]], s[1], [s[0, 0], s[1, 1]]]))
        out.append(im)
    return out


def scales(arg):
    c, feats = arg
    from menpofit.sdm.fitter import SupervisedDescentFitter
    conf = c['conf']
    S, p, b = [q2(s) for s in conf['scales']], conf['perturbations'], conf['boxes']
    case = (conf, feats)
    ims = world(b)
    s0 = snap(ims)
    bad = []
    per = []
    n = [0]

    def perturb(gt, bb):
        n[0] += 1
        k = (n[0] - 1) % p
        y = bb.copy()
        y.points = y.points + (k + 1) * .03 * bb.range()
        per.append((gt.points.copy(), bb.points.copy(), y.points.copy()))
        return y
    logs = []

    class Move(object):
        def __init__(self, *a, **k):
            self.log = []
            self.j = len(logs)
            logs.append(self.log)

        def train(self, images, gts, cur, **k):
            it = [(i.pixels[2].mean(), shows(i, g.points), [(s.points.copy(), shows(i, s.points)) for s in ss])
                  for i, g, ss in zip(images, gts, cur)]
            for q, ss in enumerate(cur):
                for m, s in enumerate(ss):
                    s.points = s.points + [[.06 * (m + 1), -.125 * (q + 1)]]
            self.log.append((it, [[shows(i, s.points) for s in ss] for i, ss in zip(images, cur)],
                             (len(images), len(gts), len(cur))))
            return cur
    fl = {'': None, 'keep': keep, 'half': half, 'mixed': [keep, half, keep][:len(S)], 'mixed2': [half, keep, half][:len(S)]}[feats]
    kw = dict(holistic_features=fl) if fl else {}
    if len(S) % 2:
        kw['reference_shape'] = trimesh(PTS[1])
    f = SupervisedDescentFitter(list(ims), group='G', scales=S, n_perturbations=p, n_iterations=2, sd_algorithm_cls=Move,
                                bounding_box_group_glob='box_*' if b[0] else None, perturb_from_gt_bounding_box=perturb, **kw)
    if not same(s0, snap(ims)):
        bad.append(('input-changed', (case, [sorted(i.landmarks) for i in ims])))
    if [len(x) for x in logs] != [1] * len(S) or len(f.algorithms) != len(S):
        bad.append(('scales-trained', (case, [len(x) for x in logs])))
        return bad
    prev = None
    for j, lg in enumerate(logs):
        it, out, ln = lg[0]
        if ln != (3, 3, 3):
            bad.append(('images', (case, j, ln)))
            return bad
        starts = c['trail'][j]['starts']
        for q, (ident, gt, ss) in enumerate(it):
            if abs(ident - (q + 1)) > 1e-6 or not np.allclose(gt, PTS[q], atol=1e-6):
                bad.append(('image-or-truth', (case, j, q)))
                continue
            if len(ss) != len(starts[q]):
                bad.append(('starts', (case, j, q, len(ss), len(starts[q]))))
                return bad
            if j == 0:
                # centre of the box it was started from, as seen in the image
                bb = np.array(PTS[q], float)
                lo, hi = bb.min(0), bb.max(0)
                want = []
                for lab in starts[q]:
                    mv = np.array([lab[0], -2 * (lab[0] - 1) + 1], float) if b[0] else np.zeros(2)
                    want.append((lo + hi) / 2 + mv + lab[1] * .03 * (hi - lo))
                got = [(pl.min(0) + pl.max(0)) / 2 for pts, pl in ss]
                if not close(got, want, .3):
                    bad.append(('start-box', (case, q, np.array(got).tolist(), np.array(want).tolist())))
            else:
                # where the previous scale has moved them
                if not close([pl for _, pl in ss], prev[q], 1e-6):
                    bad.append(('hand-off', (case, j, q, float(np.abs(np.array([pl for _, pl in ss]) - np.array(prev[q])).max()))))
        prev = out
    return bad


def run(ctx):
    rng = np.random.RandomState(ctx.seed)
    base = dict(Tables=Raw(ctx.pick('{<<0, 1, 2, 1, 0>>, <<0, 0, 1, 2, 2>>, <<1, 2, 0, 2, 1>>}', '{<<0, 1, 2, 1, 0>>, <<2, 1, 0, 0, 1>>, <<0, 0, 1, 2, 2>>, <<1, 2, 0, 2, 1>>}')),
                Truths=Raw('{1, 3}'), Starts=Raw(ctx.pick('{<<0, 4>>, <<3, 1>>, <<2, 0, 3>>, <<4>>}', '{<<0, 4>>, <<1, 2>>, <<3, 1>>, <<2, 4>>, <<2, 0, 3>>, <<4>>, <<1, 4, 3>>}')), Stages=2, WithBias=True,
                WithIncrement=False, NImages=3, ScaleLists=Raw('{}'), Perturbations=Raw('{}'), BoxCounts=Raw('{}'), Mode='exact')
    invs = ['Optimal', 'BiasOptimal', 'ErrorsSorted', 'OneRegressorPerStage', 'AllTakePart', 'Emit']
    jobs = []
    lim = ctx.pick(120, 3000)
    for bias in (True, False):
        for stages in (1, 2, 3):
            for inc in (False, True):
                if inc and stages == 3 and ctx.tier == 'quick':
                    continue
                cs = ctx.tlc('Cascade', dict(base, WithBias=bias, Stages=stages, WithIncrement=inc), invariants=invs, workers=8).cases
                idx = sorted(rng.choice(len(cs), min(lim, len(cs)), replace=False))
                jobs += [(bias, cs[i]) for i in idx]
    groups = [('exact', jobs, lambda a: list(exact(a)))]
    algs = algorithms()
    # (as many starts for every image, or not)
    cj = [(n, it, 6, [st + (i % 3 - 1 if (s + j) % 2 else 0) for i in range(6)], s) for j, n in enumerate(algs) for it, st, s in ctx.pick([(3, 8, 1)], [(1, 8, 1), (2, 7, 2), (3, 8, 3), (3, 9, 4)])]
    groups.append(('cascade', cj, cascade))
    import zoo
    fj = [(k, m, it, sa, ctx.seed + i) for i, (k, m, it, sa) in enumerate(
        [(k, m, it, sa) for k in zoo.SDAAM for m in ('aam', 'aam_masked', 'aam_patch')
         for it, sa in ctx.pick([((2, 3), None), ((2,), 3)], [((2, 3), None), ((2,), 3), ((1, 2), 2), ((3, 1), 5), ((4,), None)])])]
    fj += [(k, None, it, None, ctx.seed + i) for i, (k, it) in enumerate(
        (k, it) for k in ('SDM', 'RegularizedSDM', 'default') for it in ((2, 3), (3,), (1,)))]
    groups.append(('fitters', fj, fitters))
    sc = ctx.tlc('Cascade', dict(base, Mode='scales', ScaleLists=Raw('{<<<<1, 1>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<1, 2>>, <<3, 4>>, <<1, 1>>>>, <<<<1, 1>>, <<1, 1>>>>}'),
                                 Perturbations=Raw('{1, 2, 3}'), BoxCounts=Raw(ctx.pick('{<<0, 0, 0>>, <<1, 1, 1>>, <<2, 2, 2>>, <<3, 3, 3>>, <<1, 2, 3>>, <<2, 1, 2>>}', '{<<0, 0, 0>>} \\cup [1..3 -> 1..3]'))), invariants=invs).cases
    groups.append(('scales', [(c, f) for c in sc for f in ('', 'keep', 'half', 'mixed', 'mixed2')], scales))
    for g, js, fn in groups:
        res = pmap(fn, js, workers=8, chunk=4)

        def verdict(i):
            k, r = res[i]
            if k == 'err':
                return [('raises-' + r[0], (str(js[i])[:300], r[1][-700:]))]
            return r
        ctx.replay(g, range(len(js)), verdict, sample=0)
        ctx.sample(g, js[0][1] if g == 'exact' else js[0])
