"""P07 - shape models keep parameters and target in step (ShapeModel.tla)."""
import numpy as np
import shapeworld as sw
from p09 import arr, close


class Bases(object):
    """Relates the basis the code chose (signs, rotations within the span) to
    the specification's."""
    def __init__(self, m, kind):
        self.q = np.eye(4)
        self.b = np.eye(4)
        if kind == 'ortho':
            self.q = np.asarray(m.similarity_model.components).dot(sw.E.T)
            self.b = np.asarray(m.model.components).dot(sw.B.T)

    def vec(self, kind, v):
        if kind == 'sim' or kind == 'pdm':
            return v
        k = len(v) - 4
        return np.hstack([self.q.dot(v[:4]), self.b[:k, :k].dot(v[4:])])


def generated(m, kind, v):
    """The instance of a parameter vector, recomputed from the model's public
    parts."""
    if kind == 'sim':
        return sw.sim(1 + v[0], v[1], v[2:4], m.mean.as_vector())
    mean = np.asarray(m.model.mean().as_vector())
    C = np.asarray(m.model.components)
    if kind == 'pdm':
        return mean + v.dot(C)
    s = mean + v[4:].dot(C)
    if kind == 'global':
        return sw.sim(1 + v[0], v[1], v[2:4], s)
    t = mean + v[:4].dot(np.asarray(m.similarity_model.components))
    a, c, tr = similarity_of(mean, t)
    return sw.sim(a, c, tr, s)


def similarity_of(src, tgt):
    """The similarity taking src to its exact similarity image tgt."""
    P, Q = src.reshape(-1, 2), tgt.reshape(-1, 2)
    A = np.zeros((2 * len(P), 4))
    A[0::2] = np.stack([P[:, 0], -P[:, 1], np.ones(len(P)), np.zeros(len(P))], 1)
    A[1::2] = np.stack([P[:, 1], P[:, 0], np.zeros(len(P)), np.ones(len(P))], 1)
    x = np.linalg.lstsq(A, Q.ravel(), rcond=None)[0]
    return x[0], x[1], x[2:]


def projected(m, kind, x):
    """The model's answer to a target, recomputed."""
    if kind == 'pdm':
        mean, C = m.model.mean().as_vector(), np.asarray(m.model.components)
        return mean + C.T.dot(C.dot(x - mean))
    from menpo.transform import AlignmentSimilarity
    if kind == 'sim':
        t = AlignmentSimilarity(sw.cloud(m.mean.as_vector()), sw.cloud(x))
        return t.apply(m.mean.points).ravel()
    mean, C = m.model.mean().as_vector(), np.asarray(m.model.components)
    if kind == 'global':
        t = AlignmentSimilarity(sw.cloud(mean), sw.cloud(x))
        y = t.pseudoinverse().apply(x.reshape(-1, 2)).ravel()
        return t.apply((mean + C.T.dot(C.dot(y - mean))).reshape(-1, 2)).ravel()
    # least-squares similarity of the mean, then the modes in its frame
    a, c, tr = similarity_of(mean, x)
    n = a * a + c * c
    y = sw.sim(a / n, -c / n, [0, 0], sw.sim(1, 0, -np.asarray(tr), x))
    return sw.sim(a, c, tr, mean + C.T.dot(C.dot(y - mean)))


def invariants(m, kind, c, expect_k=None):
    v = np.asarray(m.as_vector(), float).copy()
    x = m.target.as_vector().copy()
    ng = 0 if kind == 'pdm' else 4
    if kind == 'sim':
        k = 0
    else:
        k = m.model.n_active_components
        if not (m.n_active_components == k and m.n_weights == k and len(m.weights) == k):
            yield kind + '/weights-length', (c, k, len(m.weights))
        if expect_k is not None and k != expect_k:
            yield kind + '/active-components', (c, k, expect_k)
    if len(v) != ng + k or m.n_parameters != ng + k:
        yield kind + '/vector-length', (c, len(v), m.n_parameters, ng + k)
        return
    if kind in ('global', 'ortho'):
        if m.n_global_parameters != 4 or not close(v[:4], m.global_parameters):
            yield kind + '/global-parameters', (c, list(m.global_parameters))
    if kind != 'sim' and not close(v[ng:], m.weights):
        yield kind + '/weights', c
    scale = max(1., np.abs(x).max())
    if not close(x, generated(m, kind, v), 1e-7):
        yield kind + '/target-not-the-instance', (c, x.tolist(), generated(m, kind, v).tolist())
    if kind == 'ortho':
        A = np.vstack([m.similarity_model.components, m.model.components])
        if not close(A.dot(A.T), np.eye(len(A)), 1e-8):
            yield 'ortho/not-orthonormal', c
        mean = m.model.mean().as_vector()
        one, o = np.tile([1., 0], len(mean) // 2), np.tile([0, 1.], len(mean) // 2)
        r = np.stack([-mean[1::2], mean[::2]], 1).ravel()
        S = np.linalg.qr(np.stack([mean, r, one, o], 1))[0].T
        Q = np.asarray(m.similarity_model.components)
        if not close(Q.T.dot(Q), S.T.dot(S), 1e-7):
            yield 'ortho/similarity-basis', c
    # derivative of the target with respect to the parameters
    d = np.asarray(m.d_dp(None))
    if d.shape != (len(x) // 2, ng + k, 2):
        yield kind + '/derivative-shape', (c, d.shape)
    else:
        e = 1e-4 * scale
        n = m.copy()
        for j in range(ng + k):
            base = v.copy()
            if j < ng and kind != 'sim':
                base[4:] = 0.          # the global part is that of the mean
            u = np.zeros(ng + k)
            u[j] = e
            n._from_vector_inplace(base + u)
            hi = n.target.as_vector().copy()
            n._from_vector_inplace(base - u)
            g = (hi - n.target.as_vector()) / (2 * e)
            if not close(d[:, j].ravel(), g, 1e-6):
                yield kind + '/derivative', (c, j, d[:, j].ravel().tolist(), g.tolist())
                break
        if not (np.array_equal(v, m.as_vector()) and np.array_equal(x, m.target.as_vector())):
            yield kind + '/copy-shares-state', c
    # the vector round-trips
    n = m.from_vector(v)
    if not (close(n.target.as_vector(), x, 1e-7) and close(n.as_vector(), v)):
        yield kind + '/vector-round-trip', c
    if kind in ('pdm', 'ortho', 'sim'):
        n = m.copy()
        n.set_target(m.target)
        if not (close(n.target.as_vector(), x, 1e-7) and close(n.as_vector(), v, 1e-6)):
            yield kind + '/refit-moves', (c, n.as_vector().tolist(), v.tolist())


def replay(c):
    kind = c['kind']
    m = sw.build(kind)
    bases = Bases(m, kind)
    k = 0 if kind == 'sim' else 4
    for n, h in enumerate(c['hist']):
        last = n == len(c['hist']) - 1
        if h['op'] == 'target':
            x = sw.shape(sw.TARGETS[h['i'] - 1])
            t = sw.cloud(x)
            m.set_target(t)
            if not np.array_equal(t.as_vector(), x):
                yield kind + '/target-argument-changed', c
            # what was given stays the caller's, who goes on using it
            t.points[...] += 5.
            if last and not close(m.target.as_vector(), projected(m, kind, x), 1e-7):
                yield kind + '/target-not-closest', (c, m.target.as_vector().tolist(), projected(m, kind, x).tolist())
        elif h['op'] == 'vector':
            kk = 0 if kind == 'sim' else m.model.n_active_components
            v = bases.vec(kind, sw.vector(kind, h['i'] - 1, min(kk, 4)))
            v = np.hstack([v, np.zeros(max(0, kk - 4))])
            vk = v.copy()
            m._from_vector_inplace(v)
            if not np.array_equal(v, vk):
                yield kind + '/vector-argument-changed', c
            v += 3.
            if last and not close(m.as_vector(), vk):
                yield kind + '/vector-not-kept', (c, m.as_vector().tolist())
        elif h['op'] == 'active':
            before = m.target.as_vector().copy()
            m.n_active_components = h['i']
            k = h['i']
            if last and not close(m.target.as_vector(), projected(m, kind, before), 1e-7):
                yield kind + '/active-target-not-closest', c
        else:
            before = m.target.as_vector().copy()
            new = sw.new_shapes(h['i'])
            keep = [s.as_vector().copy() for s in new]
            n0 = m.model.n_samples
            kw = [dict(), dict(forgetting_factor=0.6)][h['i'] - 1]
            m.increment(new, **kw)
            k = None
            if any(not np.array_equal(a, s.as_vector()) for a, s in zip(keep, new)):
                yield kind + '/increment-changed-shapes', c
            for z in new:
                z.points[...] += 5.
            if m.model.n_samples != n0 + len(new):
                yield kind + '/increment-samples', (c, m.model.n_samples, n0 + len(new))
            if last and not close(m.target.as_vector(), projected(m, kind, before), 1e-6):
                yield kind + '/increment-target-not-closest', c
    for v in invariants(m, kind, c, None if k is None else (k if kind != 'sim' else None)):
        yield v
    if c['exact']:
        if not close(m.target.as_vector(), arr(c['target']), 1e-7):
            yield kind + '/target', (c, m.target.as_vector().tolist())
        want = np.hstack([arr(c['q']) if c['q'] else [], arr(c['b']) if c['b'] else []])
        want = bases.vec(kind, want)
        if not close(m.as_vector(), want, 1e-7):
            yield kind + '/parameters', (c, m.as_vector().tolist(), want.tolist())


def builds(c):
    """Construction from shapes, with and without a bound on the components,
    then a few operations; invariants only."""
    from menpofit import modelinstance as M
    from menpofit.transform import DifferentiableAlignmentSimilarity
    rng = np.random.RandomState(c['seed'])
    P = c['points']
    base = rng.randn(P, 2) * 10
    mk = lambda: sw.cloud(sw.sim(1 + rng.rand(), rng.randn() * 0.3, rng.randn(2) * 5,
                                 (base + rng.randn(P, 2)).ravel()))
    shapes = [mk() for _ in range(c['n'])]
    keep = [s.as_vector().copy() for s in shapes]
    kw = {} if c['max'] is None else dict(max_n_components=c['max'])
    kind = c['kind']
    if kind == 'pdm':
        m = M.PDM(shapes, **kw)
    elif kind == 'ortho':
        m = M.OrthoPDM(shapes, **kw)
    elif kind == 'global':
        m = M.GlobalPDM(shapes, DifferentiableAlignmentSimilarity, **kw)
    else:
        m = M.GlobalSimilarityModel(shapes)
    if any(not np.array_equal(a, s.as_vector()) for a, s in zip(keep, shapes)):
        yield kind + '/construction-changed-shapes', c
    for s in shapes:
        s.points[...] *= 2.
    full = c['n'] - 1
    k = None
    if isinstance(c['max'], int):
        k = min(c['max'], full)
        if kind != 'sim' and (m.model.n_components > c['max'] or m.n_active_components > c['max']):
            yield kind + '/max-components', (c, m.model.n_components)
    if kind != 'sim' and not close(m.target.as_vector(), m.model.mean().as_vector(), 1e-6):
        yield kind + '/initial-target-not-mean', c
    if kind == 'sim' and not close(m.target.as_vector(), m.mean.as_vector()):
        yield kind + '/initial-target-not-mean', c
    for op in c['ops']:
        if op == 'target':
            x = mk()
            m.set_target(x)
            xv = x.as_vector().copy()
            x.points[...] -= 7.
            if not close(m.target.as_vector(), projected(m, kind, xv), 1e-6):
                yield kind + '/target-not-closest', c
        elif op == 'vector':
            v = rng.randn(m.n_parameters) * 0.2
            given = v.copy()
            m._from_vector_inplace(given)
            given += 1.
            if not close(m.as_vector(), v):
                yield kind + '/vector-not-kept', c
        elif op == 'reproduce' and kind in ('pdm', 'ortho', 'sim'):
            v = rng.randn(m.n_parameters) * 0.2
            x = m.from_vector(v).target
            m.set_target(x)
            if not close(m.target.as_vector(), x.as_vector(), 1e-6) or not close(m.as_vector(), v, 1e-5):
                yield kind + '/reproducible-target-not-reached', c
        elif op == 'active' and kind != 'sim':
            before = m.target.as_vector().copy()
            m.n_active_components = 2
            if m.n_active_components != 2:
                yield kind + '/active-components', c
            if not close(m.target.as_vector(), projected(m, kind, before), 1e-6):
                yield kind + '/active-target-not-closest', c
        elif op == 'increment' and kind != 'sim':
            before = m.target.as_vector().copy()
            n0 = m.model.n_samples
            new = [mk() for _ in range(4)]
            kw = {} if c['max'] is None else dict(max_n_components=c['max'])
            m.increment(new, **kw)
            if m.model.n_samples != n0 + 4:
                yield kind + '/increment-samples', c
            if isinstance(c['max'], int) and m.model.n_components > c['max']:
                yield kind + '/increment-max-components', (c, m.model.n_components)
            if not close(m.target.as_vector(), projected(m, kind, before), 1e-6):
                yield kind + '/increment-target-not-closest', c
        for v in invariants(m, kind, c):
            yield v


def run(ctx):
    cs = ctx.tlc('ShapeModel', dict(Kinds={'pdm', 'ortho', 'global', 'sim'}, Targets=sw.TARGETS, QVecs=sw.QVECS,
                                    BVecs=sw.BVECS, Actives={1, 2, 3, 4}, MaxOps=ctx.pick(3, 4),
                                    WithIncrement=True),
                 invariants=['LengthsAgree', 'InStep', 'Stationary', 'Closest', 'Emit'], workers=8).cases
    cs.sort(key=lambda c: (c['kind'], len(c['hist']), str(c['hist'])))
    rng = np.random.RandomState(ctx.seed)
    lim = ctx.pick(2500, 12000)
    short = [c for c in cs if len(c['hist']) <= 2]
    rest = [c for c in cs if len(c['hist']) > 2]
    if len(rest) > lim:
        rest = [rest[i] for i in sorted(rng.choice(len(rest), lim, replace=False))]
    ctx.replay('world', short + rest, replay)
    # the same machine on models built from shapes: histories, invariants only
    bs = []
    ops = ['target', 'vector', 'active', 'increment', 'reproduce']
    for kind in ('pdm', 'ortho', 'global', 'sim'):
        hs = sorted(set(tuple(('reproduce' if h['op'] == 'target' and h['i'] == 1 else h['op']) for h in c['hist'])
                        for c in cs if c['kind'] == kind and len(c['hist']) == 3))
        for n, h in enumerate(hs):
            for P, N, mx in ((5, 6, None), (9, 7, 3), (7, 12, 0.9)):
                if ctx.thorough or (n + P) % 3 == 0:
                    bs.append(dict(kind=kind, seed=n, points=P, n=N, max=mx, ops=list(h)))
    ctx.replay('built', bs, builds)
