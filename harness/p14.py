"""P14 - perturbed starts: counts, containment and image hygiene (Perturb.tla)."""
import numpy as np
from core import Raw, heard


def f(q):
    return q[0] / q[1]


def moved(b, k):
    dy, dx, g = (k * 7) % 31 - 15, (k * 11) % 37 - 18, k % 3
    return [b[0] + dy, b[1] + dx, b[2] + dy + g, b[3] + dx + g]


def box(b):
    from menpo.shape import bounding_box
    return bounding_box((float(b[0]), float(b[1])), (float(b[2]), float(b[3])))


def corners(pc):
    lo, hi = pc.bounds()
    return [float(v) for v in (lo[0], lo[1], hi[0], hi[1])]


def boxes(c):
    """generate_perturbations_from_gt on three images at a time."""
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.fitter import generate_perturbations_from_gt
    g, s = c['img']['gt'], c['img']['size']
    gt = PointCloud(np.array([[g[0], g[1]], [g[2], g[3]], [(g[0] + g[2]) / 2., g[1]]], float))
    ims = []
    for k in range(2):
        im = Image(np.arange(s[0] * s[1], dtype=float).reshape(1, s[0], s[1]) + k)
        im.landmarks['gt'] = gt
        im.landmarks['other'] = PointCloud(gt.points + 1)
        for i, b in enumerate(c['img']['prov']):
            im.landmarks['prov_%d' % i] = box(b)
        ims.append(im)
    groups = {k: v.points.copy() for k, v in ims[0].landmarks.items()}
    count = [0] * len(ims)
    for step, gen in enumerate(c['gen']):
        seen = []
        start = list(count)

        def perturb(gt_shape, source):
            which = 0
            n_src = len(c['img']['prov']) if gen['prov'] else 1
            which = len(seen) // (gen['n'] * n_src)
            count[which] += 1
            seen.append((corners(gt_shape), corners(source)))
            return box(moved(corners(source), count[which]))
        loud = (step + gen['n']) % 2 == 0
        get, said = heard(lambda: generate_perturbations_from_gt(
            ims, gen['n'], perturb, gt_group='gt', bb_group_glob='prov_*' if gen['prov'] else None, verbose=loud))
        if bool(said.strip()) != loud:
            yield 'said', (gen, loud, said[:200])
        src = c['img']['prov'] if gen['prov'] else [g]
        want = [([float(x) for x in g], [float(x) for x in b]) for _ in ims for b in src for _ in range(gen['n'])]
        if seen != want:
            yield 'perturbation-arguments', (c, seen[:3], want[:3])
        for k, im in enumerate(ims):
            got = [corners(b) for b in get(im)]
            if got != [[float(x) for x in b] for b in gen['boxes']]:
                yield 'boxes', (step, gen, got)
            if any(b.n_points != 4 for b in get(im)):
                yield 'not-a-box', gen
            now = {n: p for n, p in im.landmarks.items()}
            for n, p in groups.items():
                if n not in now or not np.array_equal(now[n].points, p):
                    yield 'group-changed', (n, gen)
            extra = set(now) - set(groups)
            if len(extra) != len(gen['boxes']):
                yield 'group-count', (sorted(extra), gen)
            want_px = np.arange(s[0] * s[1], dtype=float).reshape(1, s[0], s[1]) + k
            if not np.array_equal(im.pixels, want_px):
                yield 'pixels-changed', gen
            # a rescaled copy hands out its own boxes, in the same order
            half = im.rescale(2.)
            sc = (np.array(half.shape) / np.array(im.shape, float))
            b2 = np.array([corners(b) for b in get(half)])
            wb = np.array(gen['boxes'], float)
            if b2.shape != wb.shape or not np.allclose(b2, wb * np.tile(sc, 2), atol=1.5):
                yield 'boxes-of-copy', gen
    try:
        generate_perturbations_from_gt(ims, 1, perturb, gt_group='gt', bb_group_glob='nothing_*')
        yield 'accepts-empty-glob', c
    except ValueError:
        pass


def decompose(p, q, centre):
    """Scale, angle (degrees) and displacement (of `centre`) of the similarity p -> q."""
    pc, qc = p - p.mean(0), q - q.mean(0)
    a = (pc * qc).sum()
    b = (pc[:, 0] * qc[:, 1] - pc[:, 1] * qc[:, 0]).sum()
    n = (pc ** 2).sum()
    s, th = np.hypot(a, b) / n, np.degrees(np.arctan2(b, a))
    M = np.array([[a, b], [-b, a]]) / n
    fit = pc.dot(M) + q.mean(0)
    move = (centre - p.mean(0)).dot(M) + q.mean(0) - centre
    return s, th, move, np.abs(fit - q).max()


DRAWS = 24


def align(c):
    from menpo.shape import PointCloud
    from menpofit import fitter as F
    shape = PointCloud(np.array(c['shape'], float))
    b = box(c['box'])
    keep = shape.points.copy(), b.points.copy()
    s = np.sqrt(f(c['scale2']))
    to = np.array(c['to2']) / 2.
    want = (shape.points - np.array(c['from2']) / 2.) * s + to
    tol = 1e-7 * np.abs(want).max()
    got = F.align_shape_with_bounding_box(shape, b)
    if not np.allclose(got.points, want, atol=tol):
        yield 'aligned', (c, got.points.tolist(), want.tolist())
    from menpo.transform import AlignmentAffine
    aff = F.align_shape_with_bounding_box(shape, b, alignment_transform_cls=AlignmentAffine)
    if not np.allclose(aff.bounding_box().points, b.points, atol=tol):
        yield 'aligned-affine', c
    bb = shape.bounding_box()
    noise = [f(n) for n in c['noise']]
    same = noise[0] == noise[1] == noise[2]
    spell = [('list', list(noise)), ('tuple', tuple(noise)), ('array', np.array(noise))]
    if same:
        spell += [('number', noise[0]), ('one', [noise[0]]), ('one-tuple', (noise[0],)), ('np', np.float32(noise[0]))]
        if noise[0] == 0:
            spell.append(('int', 0))
    zero = not any(noise)
    rng = [f(m) for m in c['move']]
    for kind in ('uniform', 'gaussian'):
        kind = ''.join(list(kind))
        for nm, arg in spell:
            stats = []
            for d in range(2 if zero or nm != 'list' else DRAWS):
                np.random.seed(d * 977 + 13)
                before = repr(arg)
                for who, out in (
                        ('transform', F.noisy_alignment_similarity_transform(
                            bb, b, noise_type=kind, noise_percentage=arg).apply(shape)),
                        ('bounding-box', F.noisy_shape_from_bounding_box(
                            shape, b, noise_type=kind, noise_percentage=arg)),
                        ('shape', F.noisy_shape_from_shape(bb, b, noise_type=kind, noise_percentage=arg))):
                    base = want if who != 'shape' else (bb.points - np.array(c['from2']) / 2.) * s + to
                    sc, th, mv, bad = decompose(base, out.points, to)
                    if bad > tol:
                        yield 'not-a-similarity', (c, kind, nm, who)
                    if zero and np.abs(out.points - base).max() > tol:
                        yield 'zero-noise', (c, kind, nm, who)
                    if kind == 'uniform':
                        if not f(c['lo']) - 1e-9 <= sc <= f(c['hi']) + 1e-9:
                            yield 'scale-noise', (c, nm, who, sc)
                        if abs(th) > f(c['deg']) + 1e-7:
                            yield 'rotation-noise', (c, nm, who, th)
                        if np.any(np.abs(mv) > np.array(rng) + tol):
                            yield 'translation-noise', (c, nm, who, mv.tolist())
                    stats.append((sc - 1, th, mv[0], mv[1]))
                if repr(arg) != before:
                    yield 'noise-settings-changed', (nm, before, repr(arg))
            if not zero and nm == 'list' and kind == 'uniform':
                # the draws use both signs and most of the allowed range
                st = np.array(stats)
                lim = np.array([f(c['hi']) - 1, f(c['deg'])] + rng)
                for j, what in enumerate(('scale', 'rotation', 'translation', 'translation')):
                    if lim[j] > 0 and (st[:, j].max() < 0.4 * lim[j] or st[:, j].min() > -0.4 * lim[j]):
                        yield 'draws-' + what, (c, st[:, j].min(), st[:, j].max(), lim[j])
            if not zero and nm == 'list' and kind == 'gaussian':
                # three standard deviations reach what uniform noise may reach
                st = np.array(stats)[::3]
                lim = np.array([f(c['hi']) - 1, f(c['deg'])] + rng) / 3
                for j, what in enumerate(('scale', 'rotation', 'translation', 'translation')):
                    sd = np.sqrt((st[:, j] ** 2).mean())
                    if lim[j] > 0 and not .4 < sd / lim[j] < 1.8:
                        yield 'spread-' + what, (c, sd, lim[j])
                    if lim[j] == 0 and sd > 1e-6:
                        yield 'spread-' + what, (c, sd, 0)
    for bad in ('nope', 'Uniform', None):
        try:
            F.noisy_alignment_similarity_transform(bb, b, noise_type=bad)
            yield 'accepts-noise-type', bad
        except ValueError:
            pass
    # white noise on the target points
    t = F.noisy_target_alignment_transform(bb, b, noise_std=0.)
    if not np.allclose(t.apply(bb).points, b.points, atol=tol):
        yield 'zero-target-noise', c
    seen = []
    F.noisy_target_alignment_transform(bb, b, noise_std=[0., noise[0] + .1, 0., noise[0] + .2],
                                       alignment_transform_cls=lambda x, y: seen.append(y))
    still = np.abs(seen[0].points - b.points).max(axis=1) == 0
    if list(still) != [True, False, True, False]:
        yield 'target-noise-per-point', (c, still.tolist())
    if not (np.array_equal(keep[0], shape.points) and np.array_equal(keep[1], b.points)):
        yield 'argument-changed', c


def run(ctx):
    base = dict(ImgSizes=Raw('{}'), GtBoxes=Raw('{}'), SrcBoxes=Raw('{}'), MaxN=1, MaxProvided=0, Steps=1,
                Shapes=Raw('{}'), Boxes=Raw('{}'), Noise=Raw('{}'))
    cs = []
    for n, prov, steps in ((12, 2, 1), (3, 1, 2)) + ctx.pick((), ((2, 3, 1), (4, 2, 2))):
        cs += ctx.tlc('Perturb', dict(base, Mode='boxes', ImgSizes=Raw('{<<20,30>>, <<41,25>>}'),
                                      GtBoxes=Raw('{<<4,5,12,20>>, <<0,2,19,9>>}'),
                                      SrcBoxes=Raw('{<<3,4,13,18>>, <<-6,10,8,40>>, <<1,1,2,3>>}'),
                                      MaxN=n, MaxProvided=prov, Steps=steps),
                      invariants=['Contained', 'Counted', 'Emit'], workers=8).cases
    lim = ctx.pick(500, 6000)
    rng = np.random.RandomState(ctx.seed)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    ctx.replay('boxes', cs, boxes)
    shapes = '{<< <<0,0>>, <<0,9>>, <<12,9>>, <<7,2>> >>, << <<-3,5>>, <<4,-8>>, <<1,1>> >>%s}' % ctx.pick(
        '', ', << <<100,200>>, <<140,230>>, <<120,260>> >>')
    bx = '{<<0,0,12,9>>, <<30,50,60,70>>, <<100,10,110,200>>%s}' % ctx.pick('', ', <<-20,-30,-10,5>>')
    noise = ('{<<Zero,Zero,Zero>>, <<R(1,10),R(1,10),R(1,10)>>, <<R(1,5),Zero,R(1,20)>>, '
             '<<Zero,R(1,4),Zero>>, <<Zero,Zero,R(1,2)>>, <<R(1,2),R(1,50),R(1,50)>>}')
    ac = ctx.tlc('Perturb', dict(base, Mode='align', Shapes=Raw(shapes), Boxes=Raw(bx), Noise=Raw(noise)),
                 invariants=['NoiseSane', 'Emit']).cases
    ctx.replay('align', ac, align)
