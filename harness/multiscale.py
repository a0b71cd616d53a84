"""Replay of MultiScale.tla behaviours into menpofit's real multi-scale fitters,
with the per-scale optimisers replaced by recording stand-ins."""
import numpy as np
from core import Raw
from menpo.image import Image
from menpo.shape import PointCloud


def frac(r):
    return r[0] / r[1]


def pts(s):
    return np.array([[frac(c) for c in p] for p in s], dtype=float)


# ------------------------------------------------------------- features ----
def f_id(im):
    return im.copy()


def f_id2(im):
    return im.copy()


def f_crop(im):
    return im.crop((3, 2), (im.shape[0] - 2, im.shape[1] - 1))


def f_down(im):
    return im.rescale(0.5)


def f_cropdown(im):
    return f_crop(im).rescale(0.5)


FEATS = dict(id=f_id, id2=f_id2, crop=f_crop, down=f_down, cropdown=f_cropdown)

# tracer points of start and the reference shape: same diagonal up to `ratio`
START = [[12, 10], [28, 10], [28, 34], [12, 34]]   # offsets (+-8, +-12)


def reference(ratio, similar):
    """Reference with norm(ref) = ratio * norm(start); not similar to the start
    unless asked (transposed offsets)."""
    c = np.mean(START, axis=0)
    o = np.array(START, dtype=float) - c
    if not similar:
        o = o[:, ::-1]
    return PointCloud(o * ratio + np.array([50., 40.]))


def coord_image(shape):
    yy, xx = np.mgrid[0:shape[0], 0:shape[1]]
    return Image(np.stack([yy, xx]).astype(float))


class StubAlgorithm(object):
    """Moves the shape by the displacements the specification chose."""
    def __init__(self, rec, step, n_iter, parametric, cls):
        self.rec, self.step, self.n_iter = rec, step, n_iter
        self.parametric, self.cls = parametric, cls
        self.calls = []

    def run(self, image, initial_shape, gt_shape=None, max_iters=None,
            return_costs=False, **kwargs):
        self.calls.append(dict(image=image, shape=initial_shape.points.copy(),
                               gt=None if gt_shape is None else gt_shape.points.copy(),
                               max_iters=max_iters, return_costs=return_costs,
                               kwargs=kwargs))
        p = initial_shape.points
        shapes, costs = [], []
        if self.parametric:
            p = p + self.rec
            shapes.append(PointCloud(p))
        for i in range(self.n_iter):
            p = p + self.step
            shapes.append(PointCloud(p))
        if return_costs:
            costs = [float(i) for i in range(len(shapes))]
        else:
            costs = None
        return self.cls(shapes, initial_shape, image, gt_shape, costs)


def np_result(shapes, initial_shape, image, gt_shape, costs):
    from menpofit.result import NonParametricIterativeResult
    return NonParametricIterativeResult(
        shapes, initial_shape=initial_shape, image=image, gt_shape=gt_shape,
        costs=costs)


def par_result(shapes, initial_shape, image, gt_shape, costs):
    from menpofit.result import ParametricIterativeResult
    return ParametricIterativeResult(
        shapes, [np.array([float(i)]) for i in range(len(shapes))],
        initial_shape=initial_shape, image=image, gt_shape=gt_shape,
        costs=costs)


def disp(m, d, n):
    """Same motion as Disp of the specification: per tracer, per axis."""
    out = np.zeros((n, 2))
    if tuple(d) == (0, 0):
        return out
    for j in range(n):
        out[j, 0] = (d[0] + j) / m[0]
        out[j, 1] = (d[1] - j) / m[1]
    return out


def build(case, frames_m):
    """Real fitter object with stub algorithms for a specification case."""
    from menpofit.fitter import (MultiScaleNonParametricFitter,
                                 MultiScaleParametricFitter)
    c = case['cfg']
    par = c['family'] == 'par'
    cls = MultiScaleParametricFitter if par else MultiScaleNonParametricFitter
    n = len(c['start'])
    algs = []
    for i in range(c['n']):
        m = frames_m[i]
        algs.append(StubAlgorithm(disp(m, c['rec'][i], n), disp(m, c['step'][i], n),
                                  case['iters'][i], par,
                                  par_result if par else np_result))
    scales = [frac(s) for s in c['scales']]
    scales = [1 if s == 1.0 else s for s in scales]
    return cls(scales=scales,
               reference_shape=reference(frac(c['ratio']), c['similar']),
               holistic_features=[FEATS[f] for f in c['feats']],
               algorithms=algs), algs


def frame_scale(case):
    """Per scale and axis, original pixels per pixel of that scale, from the
    coordinates the specification expects there."""
    out = []
    o = np.array(case['cfg']['start'], dtype=float)
    # calls[i] = start carried (plus displacements) -> affine per axis; use the
    # positions of the same state in the original frame
    pos = 0
    for i, call in enumerate(case['calls']):
        p = pts(call)
        orig = pts(case['shapes'][pos])
        m = [(orig[:, a].max() - orig[:, a].min()) /
             (p[:, a].max() - p[:, a].min()) for a in range(2)]
        out.append(m)
        pos += case['iters'][i] + (1 if case['cfg']['family'] == 'par' else 0)
    return out


def replay(case, tol=1e-6):
    c = case['cfg']
    if case['outcome'] == 'rejected':
        fitter, algs = build(dict(case, iters=[0] * c['n']), [[1., 1.]] * c['n'])
        img = coord_image(c['size'])
        try:
            fitter.fit_from_shape(img, PointCloud(np.array(c['start'], float)),
                                  max_iters=list(c['budget']['v']))
        except ValueError:
            return
        yield 'budget-not-rejected', c['budget']
        return
    frames_m = frame_scale(case)
    fitter, algs = build(case, frames_m)
    img = coord_image(c['size'])
    start = PointCloud(np.array(c['start'], dtype=float))
    gt = PointCloud(start.points + np.array([2., -1.])) if c['gt'] else None
    b = c['budget']
    mi = b['v'][0] if b['kind'] == 'int' else list(b['v'])
    if c['via'] == 'bb':
        res = fitter.fit_from_bb(img, start.bounding_box(), max_iters=mi,
                                 gt_shape=gt, return_costs=c['costs'])
    else:
        res = fitter.fit_from_shape(img, start, max_iters=mi, gt_shape=gt,
                                    return_costs=c['costs'])
    n = c['n']
    # ------- every scale's optimiser was called once with the right shape
    for i in range(n):
        if len(algs[i].calls) != 1:
            yield 'one-call-per-scale', (i, len(algs[i].calls))
            continue
        call = algs[i].calls[0]
        want = pts(case['calls'][i])
        if call['shape'].shape != want.shape or \
                np.abs(call['shape'] - want).max() > tol:
            yield ('start-shape' if i == 0 else 'hand-off'), dict(
                scale=i, got=call['shape'].tolist(), want=want.tolist())
        if tuple(call['image'].shape) != tuple(case['imgsz'][i]):
            yield 'scale-image-size', (i, call['image'].shape, case['imgsz'][i])
        else:
            # image content: the pixel under the shape is the original one
            orig = pts(case['shapes'][_start_index(case, i)])
            for p, o in zip(want, orig):
                q = np.round(p)
                if (q < 1).any() or (q > np.array(call['image'].shape) - 2).any():
                    continue
                got = call['image'].pixels[:, int(q[0]), int(q[1])]
                exp = o + (q - p) * np.array(frames_m[i])
                if np.abs(got - exp).max() > 1e-4:
                    yield 'scale-image-content', dict(scale=i, at=p.tolist(),
                                                      got=got.tolist(), want=exp.tolist())
                    break
        if (call['gt'] is not None) != c['gt']:
            yield 'gt-passed', i
        elif c['gt']:
            wantgt = pts(case['calls'][0]) if i == 0 else None
            # ground truth in this frame: affine image of the original one
            p0 = pts(case['calls'][i]); o0 = pts(case['shapes'][_start_index(case, i)])
            m = np.array(frames_m[i])
            wantgt = p0 + (gt.points - o0) / m
            if np.abs(call['gt'] - wantgt).max() > tol:
                yield 'gt-frame', (i, call['gt'].tolist(), wantgt.tolist())
        cap = case['caps'][i]
        lo = cap if (b['kind'] == 'list' and len(b['v']) == n) else None
        share = b['v'][0] / n if len(b['v']) == 1 else None
        mi_i = int(call['max_iters'])
        if lo is not None and mi_i != lo or (share is not None and abs(n * mi_i - b['v'][0]) * 2 > n):
            yield 'budget-per-scale', (i, call['max_iters'], b)
        if bool(call['return_costs']) != c['costs']:
            yield 'costs-flag', (i, call['return_costs'])
    # ------- the result, in the caller's image
    want = [pts(s) for s in case['shapes']]
    got = [s.points for s in res.shapes]
    if len(got) != len(want):
        yield 'n-shapes', (len(got), len(want))
    else:
        for i, (g, w) in enumerate(zip(got, want)):
            if np.abs(g - w).max() > tol:
                yield 'shape-frame', dict(state=i, got=g.tolist(), want=w.tolist())
                break
    if np.abs(res.final_shape.points - want[-1]).max() > tol:
        yield 'final-shape', (res.final_shape.points.tolist(), want[-1].tolist())
    if res.initial_shape is None or \
            np.abs(res.initial_shape.points - want[0]).max() > tol:
        yield 'initial-shape', None
    if (res.gt_shape is not None) != c['gt'] or (
            c['gt'] and np.abs(res.gt_shape.points - gt.points).max() > tol):
        yield 'gt-shape', None
    if list(res.n_iters_per_scale) != list(case['iters']):
        yield 'n-iters-per-scale', (res.n_iters_per_scale, case['iters'])
    if res.n_iters != sum(case['iters']):
        yield 'n-iters', (res.n_iters, sum(case['iters']))
    if res.n_scales != n:
        yield 'n-scales', res.n_scales
    if c['family'] == 'par':
        rec = res.reconstructed_initial_shapes
        if len(rec) != n:
            yield 'n-reconstructions', len(rec)
        else:
            for i in range(n):
                w = want[_start_index(case, i) + 1]
                if np.abs(rec[i].points - w).max() > tol:
                    yield 'reconstruction', (i, rec[i].points.tolist(), w.tolist())
        sp = [float(x[0]) for x in res.shape_parameters]
        wsp = [float(j) for k in case['iters'] for j in range(k + 1)]
        if sp != wsp:
            yield 'shape-parameters-order', (sp, wsp)
    if c['costs']:
        wc = [float(j) for k in case['iters']
              for j in range(k + (1 if c['family'] == 'par' else 0))]
        if list(res.costs) != wc:
            yield 'costs-order', (res.costs, wc)
    elif res.costs is not None:
        yield 'costs-present', res.costs
    im = res.image
    if im is None or im.pixels.shape != img.pixels.shape or \
            np.abs(im.pixels - img.pixels).max() > 0:
        yield 'result-image', None
    # the caller's objects
    if np.abs(start.points - np.array(c['start'], float)).max() > 0:
        yield 'start-modified', None
    if list(img.landmarks) != []:
        yield 'landmarks-left', list(img.landmarks)


def _start_index(case, i):
    """index in case['shapes'] of the state at which scale i starts"""
    e = 1 if case['cfg']['family'] == 'par' else 0
    return sum(case['iters'][:i]) + e * i


START_TLA = '<<%s>>' % ', '.join('<<%d, %d>>' % tuple(p) for p in START)


def cfg_set(n, scales, feats, ratios, families, budgets, recs, steps,
            vias=('shape',), gts=(False,), costs=(False,), similar=(False,),
            size=(65, 49)):
    q = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    bo = lambda xs: '{' + ', '.join('TRUE' if x else 'FALSE' for x in xs) + '}'
    ss = '{' + ', '.join('<<%d, %d>>' % s for s in scales) + '}'
    return ('{[n |-> %d, scales |-> s, feats |-> f, ratio |-> r, family |-> fam, '
            'budget |-> b, rec |-> rec, step |-> st, via |-> v, gt |-> g, costs |-> co, '
            'similar |-> sim, size |-> <<%d, %d>>, start |-> %s] : '
            's \\in [1..%d -> %s], f \\in [1..%d -> %s], r \\in {%s}, fam \\in %s, '
            'b \\in {%s}, rec \\in {%s}, st \\in {%s}, v \\in %s, g \\in %s, co \\in %s, sim \\in %s}'
            % (n, size[0], size[1], START_TLA, n, ss, n, q(feats),
               ', '.join('<<%d, %d>>' % r for r in ratios), q(families),
               ', '.join(budgets), ', '.join(recs), ', '.join(steps), q(vias),
               bo(gts), bo(costs), bo(similar)))


def budget(kind, v):
    return '[kind |-> "%s", v |-> <<%s>>]' % (kind, ', '.join(map(str, v)))


def vecs(v):
    return '<<' + ', '.join('<<%d, %d>>' % tuple(x) for x in v) + '>>'


INVS = ['InStep', 'Bookkeeping', 'WithinBudget', 'ZeroBudget', 'IntShare', 'Emit']
PROPS = ['HandOffPreserves', 'PreparePreserves']


def explore(ctx, cfgs, maxiter, **kw):
    return ctx.tlc('MultiScale', dict(Cfgs=Raw(' \\cup '.join(cfgs)),
                                      MaxIter=list(maxiter)),
                   invariants=INVS, properties=PROPS, **kw).cases
