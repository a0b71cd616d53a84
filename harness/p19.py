"""P19: the bridge to dlib (Dlib.tla)."""
import warnings
import numpy as np
from core import Raw, heard
from pool import pmap
from p21 import snap, same, q2


def close(got, want, tol):
    """One to one, whatever the order."""
    from scipy.optimize import linear_sum_assignment
    got, want = np.asarray(got, float), np.asarray(want, float)
    if len(got) != len(want):
        return False
    d = np.abs(got[:, None] - want[None]).reshape(len(got), len(want), -1).max(-1)
    r, c = linear_sum_assignment(d)
    return d[r, c].max() <= tol


# ------------------------------------------------------------- conversions --
def convert(c):
    import dlib
    from menpo.shape import PointCloud, bounding_box
    from menpofit.dlib import conversion as C
    pts = np.array(c['shape'], float) / 4
    pc = PointCloud(pts.copy())
    bad = []

    def fits(v, allowed):
        return isinstance(v, int) and v in allowed
    parts = C.pointcloud_to_dlib_parts(pc)
    if len(parts) != len(pts) or not all(fits(p.y, a[0]) and fits(p.x, a[1]) for p, a in zip(parts, c['allowed'])):
        bad.append(('parts', (pts.tolist(), [(p.y, p.x) for p in parts])))
    (t, b), (l, r) = c['rect']
    rect = C.pointcloud_to_dlib_rect(pc)
    if not (fits(rect.top(), t) and fits(rect.bottom(), b) and fits(rect.left(), l) and fits(rect.right(), r)):
        bad.append(('rect', (pts.tolist(), str(rect))))
    bb = C.dlib_rect_to_bounding_box(rect)
    lo, hi = bb.bounds()
    if list(lo) != [rect.top(), rect.left()] or list(hi) != [rect.bottom(), rect.right()] or bb.n_points != 4 or \
            not same_box(bb, bounding_box((rect.top(), rect.left()), (rect.bottom(), rect.right()))):
        bad.append(('rect-back', (str(rect), bb.points.tolist())))
    if str(C.pointcloud_to_dlib_rect(bb)) != str(rect):
        bad.append(('rect-twice', (str(rect), str(C.pointcloud_to_dlib_rect(bb)))))
    # the truth of an image with one of its boxes
    box = PointCloud(pts[::-1] * 2 + [[3, -7]])
    fo = C.bounding_box_pointcloud_to_dlib_fo_detection(box, pc)
    if str(fo.rect) != str(C.pointcloud_to_dlib_rect(box)):
        bad.append(('detection-rect', (box.points.tolist(), str(fo.rect))))
    got = [(p.y, p.x) for p in fo.parts()]
    if len(got) != len(pts) or not all(fits(p[0], a[0]) and fits(p[1], a[1]) for p, a in zip(got, c['allowed'])):
        bad.append(('detection-parts', (pts.tolist(), got)))
    back = C.dlib_full_object_detection_to_pointcloud(fo)
    if not np.array_equal(back.points, got):
        bad.append(('parts-back', (got, back.points.tolist())))
    fo2 = C.bounding_box_pointcloud_to_dlib_fo_detection(box, back)
    if not np.array_equal(C.dlib_full_object_detection_to_pointcloud(fo2).points, back.points):
        bad.append(('parts-twice', (got,)))
    if not np.array_equal(pc.points, pts):
        bad.append(('input-changed', pts.tolist()))
    return bad


def same_box(a, b):
    return np.array_equal(a.points, b.points)


def pixels(arg):
    """Images become the bytes dlib can read."""
    kind, ch, h, w, seed = arg
    from menpo.image import Image, MaskedImage
    from menpofit.dlib.conversion import image_to_dlib_pixels
    rng = np.random.RandomState(seed)
    by = rng.randint(0, 256, (ch, h, w))
    px = by.astype(np.uint8) if kind == 'bytes' else by / 255.
    im = (MaskedImage if kind == 'masked' else Image)(px)
    s0 = snap([im])
    p = image_to_dlib_pixels(im)
    want = np.rollaxis(by, 0, 3) if ch == 3 else by[0]
    bad = []
    if not isinstance(p, np.ndarray) or p.dtype != np.uint8 or p.shape != want.shape:
        bad.append(('pixels-kind', (arg, str(getattr(p, 'dtype', type(p))), getattr(p, 'shape', None))))
    elif np.abs(p.astype(int) - want).max() > (0 if kind == 'bytes' else 1):
        bad.append(('pixels', (arg, int(np.abs(p.astype(int) - want).max()))))
    p[...] = 0
    if not same(s0, snap([im])):
        bad.append(('pixels-shared', arg))
    return bad


# ----------------------------------------------------------------- cascade --
MOVES = [(12, -7), (-9, 11), (6, 13)]
LOG = []


class Predictor(object):
    """Moves the box it is given; its parts are the corners and a midpoint."""

    def __init__(self, j):
        self.j = j
        self.calls = []

    def __call__(self, pix, rect, *a):
        import dlib
        self.calls.append((np.array(pix), (rect.top(), rect.left(), rect.bottom(), rect.right())))
        dy, dx = MOVES[self.j]
        t, l, b, r = rect.top() + dy, rect.left() + dx, rect.bottom() + dy, rect.right() + dx
        pts = [(t, l), (t, r), (b, r), (b, l), ((t + b) // 2, (3 * l + r) // 4)]
        return dlib.full_object_detection(rect, [dlib.point(int(x), int(y)) for y, x in pts])


OPTS = ('cascade_depth', 'feature_pool_region_padding', 'feature_pool_size', 'lambda_param', 'nu', 'num_test_splits',
        'num_trees_per_cascade_level', 'oversampling_amount', 'tree_depth')


def stand_in(images, detections, options):
    p = Predictor(len(LOG))
    LOG.append((p, [np.array(i) for i in images],
                [[((d.rect.top(), d.rect.left(), d.rect.bottom(), d.rect.right()), [(q.y, q.x) for q in d.parts()]) for d in ds]
                 for ds in detections], dict((o, getattr(options, o)) for o in OPTS)))
    return p


def truth(y, x, m):
    return np.array([[y, x], [y, x + 50 * m], [y + 40 * m, x + 50 * m], [y + 40 * m, x], [y + 20 * m, x + 12 * m]], float)


def box(c):
    from menpo.shape import bounding_box
    return bounding_box((c[0], c[1]), (c[2], c[3]))


IMAGES = [(30, 40, 2), (26, 34, 3), (40, 28, 4)]
SHAPES = [(310, 360), (355, 390), (420, 430)]
REF = 3


def images(boxes):
    from menpo.image import Image
    from menpo.shape import PointCloud
    out = []
    for k, ((y, x, m), s, n) in enumerate(zip(IMAGES, SHAPES, boxes)):
        im = Image(np.full((1,) + s, (k + 1) / 10.))
        im.landmarks['G'] = PointCloud(truth(y, x, m))
        for b in range(1, n + 1):
            sy, sx = 4 * b, 3 - 6 * b
            im.landmarks['box_%d' % b] = box((y + sy, x + sx, y + sy + 40 * m, x + sx + 50 * m))
        out.append(im)
    return out


def install():
    """Stand-ins for dlib's trainer: what it is given is recorded."""
    import dlib
    import menpofit.dlib.algorithm as A
    dlib.train_shape_predictor = stand_in
    for n in dir(A):
        if n == 'train_shape_predictor':
            setattr(A, n, stand_in)


def cascade(c):
    import dlib
    install()
    from menpofit.dlib import DlibERT
    warnings.simplefilter('ignore')
    conf = c['conf']
    S, p, b = [q2(s) for s in conf['scales']], max(conf['perturbations'], 1), conf['boxes']
    n = len(S)
    fit = conf['kind'] == 'fit'
    given = b[0] > 0 and not fit
    ims = images([0] * 3 if fit else b)
    s0 = snap(ims)
    count = [0]
    bad = []

    def perturb(gt, bb):
        count[0] += 1
        k = (count[0] - 1) % p + 1
        y = bb.copy()
        y.points = y.points + k * .1 * bb.range()
        return y
    depth = [5 + 3 * j for j in range(n)]
    opts = dict(feature_padding=[j + 1 for j in range(n)], n_pixel_pairs=[100 + j for j in range(n)],
                distance_prior_weighting=[.1 + j for j in range(n)], regularisation_weight=[.2 + .1 * j for j in range(n)],
                n_split_tests=[7 + j for j in range(n)], n_trees=[11 + j for j in range(n)],
                n_dlib_perturbations=[1 + j for j in range(n)], n_tree_levels=[2 + j for j in range(n)])
    if n % 2:
        opts = dict((k, v[0]) for k, v in opts.items())
    del LOG[:]
    loud = (n + p + sum(b)) % 2 == 0
    f, said = heard(lambda: DlibERT(list(ims), group='G', scales=S, n_perturbations=p, n_iterations=depth, perturb_from_gt_bounding_box=perturb,
                bounding_box_group_glob='box_*' if given else None,
                reference_shape=box((0, 0, 40 * REF, 50 * REF)), verbose=loud, **opts))
    if bool(said.strip()) != loud:
        bad.append(('said', (conf, loud, said[:200])))
    if not same(s0, snap(ims)):
        bad.append(('input-changed', (conf, [sorted(i.landmarks) for i in ims])))
    if len(LOG) != n or len(f.algorithms) != n:
        bad.append(('predictors', (conf, len(LOG))))
        return bad
    names = dict(feature_padding='feature_pool_region_padding', n_pixel_pairs='feature_pool_size',
                 distance_prior_weighting='lambda_param', regularisation_weight='nu', n_split_tests='num_test_splits',
                 n_trees='num_trees_per_cascade_level', n_dlib_perturbations='oversampling_amount', n_tree_levels='tree_depth')
    for j in range(n):
        o = LOG[j][3]
        for k, v in list(opts.items()) + [('n_iterations', depth)]:
            want = v[j] if isinstance(v, list) else v
            got = o[names.get(k, 'cascade_depth')]
            if abs(got - want) > 1e-9:
                bad.append(('option-' + k, (conf, j, got, want)))
        if f.algorithms[j].n_iterations != (depth[j] if isinstance(depth, list) else depth):
            bad.append(('iterations', (conf, j)))
    if fit:
        return bad + fitting(f, c)
    for j, t in enumerate(c['trail']):
        _, pix, dets, _ = LOG[j]
        if len(pix) != len(ims) or len(dets) != len(ims):
            bad.append(('images', (conf, j, len(pix))))
            return bad
        for i in range(len(ims)):
            fac = q2(t['factor'][i])
            if pix[i].ndim != 2 or abs(pix[i].mean() - 25.5 * (i + 1)) > 3:
                bad.append(('image-order', (conf, j, i)))
            elif max(abs(np.array(pix[i].shape) - np.array(SHAPES[i]) * fac)) > 3:
                bad.append(('image-scale', (conf, j, i, pix[i].shape)))
            gt = truth(*IMAGES[i]) * fac
            for r, parts in dets[i]:
                if np.shape(parts) != gt.shape or np.abs(np.array(parts) - gt).max() > 2.5:
                    bad.append(('truth', (conf, j, i, parts, gt.tolist())))
                    break
            want = [[q2(x) * fac for x in bx] for bx in t['given'][i]]
            got = [r for r, _ in dets[i]]
            if len(got) != len(want):
                bad.append(('starts', (conf, j, i, len(got), len(want))))
                return bad
            if not close(got, want, 3 + 1.5 * j):
                bad.append(('boxes', (conf, j, i, got, want)))
                return bad
    return bad


def fitting(f, c):
    from menpo.image import Image
    from menpo.shape import PointCloud
    bad = []
    conf, m = c['conf'], c['conf']['size']
    start = [q2(x) for x in c['trail'][0]['given'][0][0]]
    want = []
    for t in c['trail']:
        a = [q2(x) for x in t['moved'][0][0]]
        want.append(np.array([[a[0], a[1]], [a[0], a[3]], [a[2], a[3]], [a[2], a[1]],
                              [(a[0] + a[2]) / 2, (3 * a[1] + a[3]) / 4]]))
    for how in ('box', 'shape', 'shape-gt'):
        for e in LOG:
            del e[0].calls[:]
        im = Image(np.full((1, 240, 300), .5))
        gt = PointCloud(want[-1] + [[2, 3]]) if how.endswith('gt') else None
        s0 = snap([im])
        if how == 'box':
            r = f.fit_from_bb(im, box(start))
        else:
            y0, x0, y1, x1 = start
            s = PointCloud(np.array([[(y0 + y1) / 2, x0], [y0, (x0 + x1) / 2], [y1, x0 + 5], [y0 + 9, x1]]))
            r = f.fit_from_shape(im, s, gt_shape=gt)
        if not same(s0, snap([im])):
            bad.append(('fit-input-changed', (conf, how)))
        if [len(e[0].calls) for e in LOG] != [1] * len(LOG):
            bad.append(('fit-calls', (conf, how, [len(e[0].calls) for e in LOG])))
            continue
        for j, (e, t) in enumerate(zip(LOG, c['trail'])):
            fac = q2(t['factor'][0])
            pix, rect = e[0].calls[0]
            exp = [q2(x) * fac for x in t['given'][0][0]]
            if np.abs(np.array(rect) - exp).max() > 3 + 1.5 * j:
                bad.append(('fit-box', (conf, how, j, rect, exp)))
            if max(abs(np.array(pix.shape[:2]) - np.array([240, 300]) * fac)) > 3:
                bad.append(('fit-image', (conf, how, j, pix.shape)))
        fac = q2(c['trail'][-1]['factor'][0])
        tol = sum(2.5 / q2(t['factor'][0]) for t in c['trail'])
        if r.final_shape.n_points != 5 or np.abs(r.final_shape.points - want[-1]).max() > tol:
            bad.append(('fit-final', (conf, how, r.final_shape.points.tolist(), want[-1].tolist())))
        # the last state of every scale is what its predictor answered
        n = len(c['trail'])
        if len(r.shapes) < n or any(np.abs(x.points - w).max() > tol for x, w in zip(r.shapes[-n:], want) if x.n_points == 5) \
                or any(x.n_points != 5 for x in r.shapes[-n:]):
            bad.append(('fit-shapes', (conf, how, len(r.shapes))))
        if gt is not None and (r.gt_shape is None or np.abs(r.gt_shape.points - gt.points).max() > 1e-6):
            bad.append(('fit-gt', (conf, how)))
    # a predictor of somebody else
    from menpofit.dlib import DlibWrapper
    im = Image(np.full((3, 90, 110), .5))
    w = DlibWrapper(Predictor(0))
    sb = (20.25, 17.5, 63, 71.75)
    gt = PointCloud(truth(10, 12, 1))
    for how in ('box', 'shape'):
        r = w.fit_from_bb(im, box(sb), gt_shape=gt) if how == 'box' else \
            w.fit_from_shape(im, PointCloud(np.array([[20.25, 30], [63, 50], [41, 17.5], [40, 71.75]])), gt_shape=gt)
        pix, rect = w.algorithm.dlib_model.calls[-1]
        if np.abs(np.array(rect) - sb).max() >= 1 or pix.shape != (90, 110, 3):
            bad.append(('wrapper-box', (how, rect, pix.shape)))
        t, l, b, rr = np.array(rect) + np.array([12, -7, 12, -7])
        exp = [[t, l], [t, rr], [b, rr], [b, l], [(t + b) // 2, (3 * l + rr) // 4]]
        if not np.array_equal(r.final_shape.points, exp) or not np.array_equal(r.gt_shape.points, gt.points):
            bad.append(('wrapper-result', (how, r.final_shape.points.tolist(), exp)))
        if im.has_landmarks:
            bad.append(('wrapper-input-changed', how))
    return bad


def run(ctx):
    qs = ctx.pick('{-9, -4, -3, 0, 1, 2, 6, 8, 11, 403}', '{-401, -9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 7, 8, 11, 403}')
    base = dict(Mode='convert', Quarters=Raw(qs), NPoints=2, Rounding='trunc', Images=Raw('<<>>'), Reference=REF,
                ScaleLists=Raw('{}'), Perturbations=Raw('{}'), BoxCounts=Raw('{}'), FitBoxes=Raw('{}'))
    invs = ['WithinRounding', 'Idempotent', 'BoundsCommute', 'SizeKept', 'Everybody', 'Emit']
    cs = ctx.tlc('Dlib', base, invariants=invs, workers=8).cases
    for r in ('floor', 'near'):
        ctx.tlc('Dlib', dict(base, Rounding=r, Quarters=Raw('{-9, -4, -2, 0, 1, 6, 8, 11}')), invariants=invs[:-1], workers=8, expect_cases=False)
    groups = [('convert', cs, convert)]
    if not ctx.thorough:
        idx = np.random.RandomState(ctx.seed).permutation(len(cs))[:4000]
        groups = [('convert', [cs[i] for i in sorted(idx)], convert)]
    groups.append(('pixels', [(k, ch, h, w, s) for k in ('bytes', 'float', 'masked') for ch in (1, 3, 4, 7)
                              for h, w in ((5, 7), (9, 3)) for s in range(ctx.pick(2, 12))], pixels))
    imgs = '<<' + ', '.join('<<%d, %d, %d>>' % i for i in IMAGES) + '>>'
    sl = ctx.pick('{<<<<1, 1>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<1, 2>>, <<3, 4>>, <<1, 1>>>>}',
                  '{<<<<1, 1>>>>, <<<<1, 2>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<3, 4>>, <<1, 2>>>>, <<<<1, 2>>, <<3, 4>>, <<1, 1>>>>, <<<<1, 3>>, <<2, 3>>, <<1, 1>>>>}')
    cc = ctx.tlc('Dlib', dict(base, Mode='cascade', Images=Raw(imgs), ScaleLists=Raw(sl), Perturbations=Raw('1..3'),
                              BoxCounts=Raw(ctx.pick('{<<0, 0, 0>>, <<1, 1, 1>>, <<3, 3, 3>>, <<1, 2, 3>>, <<3, 1, 2>>}', '{<<0, 0, 0>>} \\cup [1..3 -> 1..3]')), FitBoxes=Raw('{<<60, 70, 2>>, <<50, 60, 3>>, <<55, 48, 4>>}')),
                 invariants=invs).cases
    groups.append(('cascade', cc, cascade))
    for g, js, fn in groups:
        res = pmap(fn, js, workers=8, chunk=4)

        def verdict(i):
            k, r = res[i]
            if k == 'err':
                return [('raises-' + r[0], (str(js[i])[:300], r[1][-700:]))]
            return r
        ctx.replay(g, range(len(js)), verdict, sample=0)
        ctx.sample(g, js[0])
