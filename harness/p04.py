"""P04 - fits leave their inputs alone and do not depend on history.

History.tla enumerates the histories; they are replayed on one object of every
fitter family and each answer is compared with that of a pristine copy."""
import copy
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import zoo
from pool import pmap
from core import Raw

MAP = {'aam': 'map_inference', 'atm': 'map_inference', 'clm': 'map_inference',
       'unified': 'prior'}


def fam_opts(name):
    f = zoo.family(name)
    for k, v in MAP.items():
        if f.startswith(k):
            return v
    return None


def digest(x, seen=None, path=''):
    """Hash of everything numeric reachable from a trained model (the current
    pose of a model instance is working state, not part of the model)."""
    from menpofit.modelinstance import ModelInstance
    if seen is None:
        seen = {}
    if isinstance(x, np.ndarray):
        return [(path, np.array(x) if x.dtype != object else len(x))]
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return [(path, repr(x))]
    if id(x) in seen:
        return []
    seen[id(x)] = x
    out = []
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            out += digest(x[k], seen, path + '/' + str(k))
        return out
    if isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            out += digest(v, seen, path + '/%d' % i)
        return out
    if isinstance(x, ModelInstance):
        return digest(x.model, seen, path + '/model')
    if hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        return digest(dict(vars(x)), seen, path)
    if hasattr(x, '__dict__') and type(x).__module__.startswith('menpofit'):
        return digest(dict(vars(x)), seen, path)
    return out


def eq(x, y):
    if x[0] != y[0]:
        return False
    a, b = x[1], y[1]
    if isinstance(a, np.ndarray):
        # (building a linear fitter orthonormalises the model again, which may
        # round differently)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
                                           if a.dtype.kind in 'fc' else np.array_equal(a, b))
    return a == b


def image_state(im):
    return (im.pixels.copy(), getattr(im, 'mask', None) is not None and im.mask.pixels.copy(),
            {k: im.landmarks[k].points.copy() for k in im.landmarks}, im.path if hasattr(im, 'path') else None)


def same_image(a, b):
    if a[0].shape != b[0].shape or not np.array_equal(a[0], b[0]):
        return 'pixels'
    if not np.array_equal(a[1], b[1]):
        return 'mask'
    if set(a[2]) != set(b[2]):
        return 'landmark-groups'
    for k in a[2]:
        if not np.array_equal(a[2][k], b[2][k]):
            return 'landmark-values'
    return None


def snapshot(res):
    """Everything a caller can read off a result, as numbers."""
    out = [np.array([s.points for s in res.shapes], float).ravel(),
           res.final_shape.points.ravel().copy(),
           np.array(res.n_iters_per_scale, float)]
    for a in ('shape_parameters', 'appearance_parameters', 'homogeneous_parameters'):
        try:
            v = getattr(res, a)
        except AttributeError:
            continue
        if v is not None:
            out.append(np.concatenate([np.ravel(np.asarray(x, float)) for x in v]))
    for a in ('costs', 'appearance_costs', 'deformation_costs'):
        v = getattr(res, a, None)
        out.append(np.array([-1.]) if v is None else np.array(v, float).ravel())
    out.append(np.array([res.gt_shape is not None, res.initial_shape is not None], float))
    if res.initial_shape is not None:
        out.append(res.initial_shape.points.ravel().copy())
    return out


def scribble(res):
    """Overwrite everything of a result that its owner can reach."""
    arrays = [x.points for x in list(res.shapes) + [res.final_shape, res.initial_shape] if x is not None]
    for a in ('shape_parameters', 'appearance_parameters', 'homogeneous_parameters'):
        try:
            arrays += [x for x in (getattr(res, a, None) or []) if isinstance(x, np.ndarray)]
        except AttributeError:
            pass
    for a in ('costs', 'appearance_costs', 'deformation_costs'):
        if isinstance(getattr(res, a, None), list):
            getattr(res, a)[:] = [-7.]
    if res.image is not None:
        arrays.append(res.image.pixels)
    for a in arrays:
        try:
            a[...] = 1e3
        except ValueError:      # read only
            pass


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return len(a) == len(b) and all(
        x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-7, equal_nan=True)
        for x, y in zip(a, b))


class Bench(object):
    """Concrete arguments of the abstract calls, for one fitter."""

    def __init__(self, name):
        self.name = name
        self.fam = zoo.family(name)
        ims = zoo.images(tri=False) if self.fam == 'lk' else zoo.test_images()
        self.ims = [ims[0].copy(), ims[1].crop((2, 1), (58, 60)), ims[2].copy()]
        if self.fam == 'lk':
            self.ims[1] = ims[1].crop((2, 1), (58, 60))
        extra = zoo.gt_shape(self.ims[0]).copy()
        self.ims[0].landmarks['other'] = extra
        self.starts = [[zoo.start_shape(im, sh, gr) for sh, gr in
                        (((1.5, -1.), 1.06), ((-1., 1.), 0.95))] for im in self.ims]
        for ss in self.starts:
            # the second one is turned
            p = ss[1].points
            c, R = p.mean(0), np.array([[np.cos(.2), -np.sin(.2)], [np.sin(.2), np.cos(.2)]])
            ss[1].points[...] = (p - c).dot(R.T) + c
        self.gts = [zoo.gt_shape(im).copy() for im in self.ims]
        self.bbs = [zoo.start_shape(im).bounding_box() for im in self.ims]
        # the caller's content in two versions (those of the first image differ)
        self.ver = 0
        self.states, self.argss = [], []
        for v in (0, 1):
            self.states.append([image_state(im) for im in self.ims])
            self.argss.append([a.points.copy() for a in self.args()])
            if v == 0:
                im = self.ims[0]
                im.pixels[...] = 0.8 * np.roll(im.pixels, (2, -1), (1, 2)) + 0.1
                for a in self.starts[0] + [self.gts[0], self.bbs[0]]:
                    a.points[...] += [1.5, -2.]
        self.edit(0)

    def edit(self, v):
        """The caller overwrites his image and shapes in place."""
        self.ver = v
        for im, s in zip(self.ims, self.states[v]):
            im.pixels[...] = s[0]
        for a, p in zip(self.args(), self.argss[v]):
            a.points[...] = p

    @property
    def state0(self):
        return self.states[self.ver]

    @property
    def args0(self):
        return self.argss[self.ver]

    def args(self):
        return [s for ss in self.starts for s in ss] + self.gts + self.bbs

    def calls(self):
        """(description for the specification, function(fitter))"""
        n, fam = self.name, self.fam
        casc = fam in zoo.CASCADE
        mp = fam_opts(n)
        out = []

        def fit(im, st, gt=False, bb=False, bad=False, **kw):
            if fam == 'dlib':
                kw = {}
            if casc:
                kw.pop('max_iters', None)

            def f(fitter):
                g = self.gts[im] if gt else None
                try:
                    if bb:
                        return fitter.fit_from_bb(self.ims[im], self.bbs[im], gt_shape=g, **kw)
                    return fitter.fit_from_shape(self.ims[im], self.starts[im][st], gt_shape=g, **kw)
                except ValueError as e:
                    if bad:
                        return 'ValueError'
                    raise
            out.append((dict(op='fit', im=im + 1, bad=bad), f))
        fit(0, 0, max_iters=[2, 1])
        fit(0, 1, gt=True, max_iters=[1, 3], return_costs=True)
        fit(1, 0, bb=True, max_iters=3)
        fit(2, 1, gt=True, max_iters=[2, 2])
        if mp:
            fit(0, 0, max_iters=[2, 1], **{mp: True})
            fit(1, 1, gt=True, max_iters=[2, 2], return_costs=fam not in ('clm',), **{mp: True})
        elif not casc:
            fit(1, 1, gt=True, max_iters=[4, 1], return_costs=True)
        if not casc:
            fit(0, 0, bad=True, max_iters=[1, 2, 3])
        if fam != 'lk' and not casc:
            fit(2, 0, max_iters=0, return_costs=fam != 'clm')

        def query(fitter):
            # a look at warped images re-targets the optimisers' warps
            if hasattr(fitter, 'warped_images'):
                fitter.warped_images(self.ims[2], [self.gts[2], self.starts[2][0]])
            return 'queried'
        if fam in zoo.LK_FAMILIES or fam.split('_')[0] in ('aam', 'atm') or fam in ('aps', 'unified'):
            out.append((dict(op='query', im=3, bad=False), query))
        def edit(fitter):
            self.edit(1 - self.ver)
            return 'edited'
        out.append((dict(op='edit', im=1, bad=False), edit))
        # (done by the caller of these, who has the results)
        out.append((dict(op='scribble', im=1, bad=False), lambda fitter: 'scribbled'))
        if not casc:
            # a new fitter on the model that has been used
            out.append((dict(op='construct', im=1, bad=False), lambda fitter: 'constructed'))
        return out


def check(job):
    name, hists, kinds = job
    bad = []
    pristine = zoo.make(name)
    b = Bench(name)
    calls = b.calls()
    K = len(calls)
    if getattr(pristine, '_model', None) is not None:
        model = pristine._model
    else:
        model = None
    d0 = digest(model) if model is not None else None
    # every call on a pristine fitter
    wants = []
    for v in (0, 1):
        want = []
        for i, (d, f) in enumerate(calls):
            b.edit(v)
            if v and (d['im'] != 1 or d['bad']):
                want.append(wants[0][i])
                continue
            fitter = copy.deepcopy(pristine)
            r = f(fitter)
            want.append(r if isinstance(r, str) else snapshot(r))
            b.edit(v)
            if v and d['op'] == 'fit' and same(want[i], wants[0][i]):
                bad.append(('ignores-its-input', dict(call=i)))
        wants.append(want)
    b.edit(0)
    want = wants[0]
    # a freshly constructed one on the same model (not for trained cascades,
    # whose training draws random numbers)
    if len(calls) > 1:
        calls[1][1](zoo.make(name))     # leaves the model somewhere else
    fresh = zoo.make(name)
    for i, (_, f) in enumerate(calls[:3]):
        r = f(fresh)
        if not same(r if isinstance(r, str) else snapshot(r), want[i]):
            bad.append(('fresh-fitter', dict(call=i)))
    fitter = pristine
    earlier = []
    n = 0
    past = []
    for h in hists:
        for c in h:
            c = c - 1
            past.append(c)
            if calls[c][0]['op'] == 'construct':
                fitter = zoo.make(name)
            r = calls[c][1](fitter)
            n += 1
            if calls[c][0]['op'] == 'scribble' and earlier:
                scribble(earlier.pop()[1])
            snap = r if isinstance(r, str) else snapshot(r)
            if not same(snap, wants[b.ver][c]):
                bad.append(('history-dependent', dict(call=c, history=past[-6:])))
            for i, im in enumerate(b.ims):
                w = same_image(image_state(im), b.state0[i])
                if w:
                    bad.append(('image-' + w, dict(call=c, image=i)))
                    # restore, to blame the next call separately
                    for k in list(im.landmarks):
                        if k not in b.state0[i][2]:
                            del im.landmarks[k]
                    im.pixels[...] = b.state0[i][0]
                    for k, v in b.state0[i][2].items():
                        im.landmarks[k].points[...] = v
            for a, p in zip(b.args(), b.args0):
                if not np.array_equal(a.points, p):
                    bad.append(('argument-shape', dict(call=c)))
                    a.points[...] = p
            if not isinstance(r, str):
                earlier.append((c, r, snap))
            if len(bad) > 6:
                return bad, n
    for c, r, s in earlier[-40:]:
        if not same(snapshot(r), s):
            bad.append(('earlier-result-changed', dict(call=c)))
            break
    if d0 is not None:
        d1 = digest(model)
        diff = [x[0] for x, y in zip(d0, d1) if not eq(x, y)][:5]
        if diff or len(d0) != len(d1):
            bad.append(('model-changed', dict(at=diff)))
    return bad, n


def run(ctx):
    names = zoo.specs()
    kinds = {}
    for name in names:
        kinds[name] = [c[0] for c in Bench(name).calls()]
    invs = ['InputsUntouched', 'PrecomputedConstant', 'Deterministic', 'Emit']
    distinct = [k for i, k in enumerate(kinds.values()) if k not in list(kinds.values())[:i]]

    def tlc(k, depth):
        return ctx.tlc('History', dict(Calls=k, Images=3, Depth=depth), invariants=invs,
                       properties=['OutputsStable'], workers=2).cases
    with ThreadPoolExecutor(4) as ex:
        worlds = list(ex.map(lambda a: tlc(*a), [(k, d) for k in distinct for d in (2, 3)]))
    rng = np.random.RandomState(ctx.seed)
    jobs = []
    for name in names:
        # CLM-type fitters are slower; every ordered pair once, plus triples
        k = kinds[name]
        hs, tr = worlds[2 * distinct.index(k):][:2]
        pick = ctx.pick(6, 300)
        hs = hs + [tr[i] for i in rng.choice(len(tr), min(pick, len(tr)), replace=False)]
        if not ctx.thorough:
            # rotate: half of the pairs per fitter, disjoint halves over fitters
            hs = [h for i, h in enumerate(hs) if (i + names.index(name)) % 2 == 0]
        # the same call before and after the caller overwrote its arguments or
        # its result
        op = [x['op'] for x in k]
        same_args = [h for h in tr if h[0] == h[2] and op[h[0] - 1] == 'fit' and not k[h[0] - 1]['bad'] and
                     (op[h[1] - 1] == 'scribble' or (op[h[1] - 1] == 'edit' and k[h[0] - 1]['im'] == 1))]
        jobs.append((name, hs + same_args, len(k)))
    for j in jobs:
        zoo_warm(j[0])
    res = pmap(check, jobs, workers=7)
    for (name, hs, _), (st, r) in zip(jobs, res):
        ctx.count('history/' + zoo.family(name), len(hs))
        ctx.sample('history', dict(fitter=name, histories=hs[:5]), 3)
        if st == 'err':
            ctx.fail('history/raises-' + r[0], dict(fitter=name), name + ': ' + r[1])
            continue
        bad, n = r
        ctx.replayed += n
        for clause, d in bad:
            ctx.fail('history/' + clause, dict(fitter=name, **d), '%s: %s %s' % (name, clause, d))


def zoo_warm(name):
    f = zoo.family(name)
    if f in zoo.AAM_MODELS + zoo.ATM_MODELS + ['clm', 'aps', 'unified']:
        zoo.model(f)
    if f == 'sdaam':
        zoo.model('aam')
