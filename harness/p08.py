"""P08 - model-driven warps stay in step with their shape model (ModelWarp.tla,
LinearWarp.tla)."""
import numpy as np
import shapeworld as sw
from p07 import Bases, similarity_of
from p09 import arr, close

EVAL = [[0, 0], [3, 4], [3, -4], [-3, -4], [-3, 4], [1, 2], [-2, 3], [3, 0], [0, -4], [2, -1], [-1, -3]]
CASES = dict(pdm=('ModelDrivenTransform', 'pdm'), ortho=('OrthoMDTransform', 'ortho'),
             glob=('GlobalMDTransform', 'global'))


def warp(kind, tps, source=True):
    from menpo.shape import TriMesh
    from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines
    import menpofit.transform.modeldriven as md
    pdm = sw.build(kind)
    bases = Bases(pdm, kind)
    name = {'pdm': 'ModelDrivenTransform', 'ortho': 'OrthoMDTransform', 'global': 'GlobalMDTransform'}[kind]
    cls = DifferentiableThinPlateSplines if tps else DifferentiablePiecewiseAffine
    src = TriMesh(sw.MEAN.reshape(-1, 2).copy(), trilist=np.array([[0, 1, 2], [0, 2, 3]]))
    return getattr(md, name)(pdm, cls, source=src) if source else getattr(md, name)(pdm, cls), bases


def replay(c):
    kind = c['kind']
    comp = any(h['op'] == 'compose' for h in c['hist'])
    tag = '%s-%s' % (kind, {True: 'tps', False: 'pwa'}[c['tps']])
    t, bases = warp(kind, c['tps'])
    X = np.array(EVAL, float)
    src = sw.MEAN.reshape(-1, 2)
    scratch = src.copy()
    for h in c['hist']:
        # derivatives asked for in between, at the same points (cached) and others
        t.d_dp(X)
        t.d_dp(scratch)
        if c['tps']:
            # the caller moves its points and asks again
            scratch[...] = src * .5 - scratch * .25
            t.d_dp(scratch)
        if h['op'] == 'target':
            x = sw.cloud(sw.shape(sw.TARGETS[h['i'] - 1]))
            xk = x.as_vector().copy()
            t.set_target(x)
            if not np.array_equal(x.as_vector(), xk):
                yield tag + '/target-argument-changed', c
            x.points[...] += 5.
        elif h['op'] == 'vector':
            v = bases.vec(kind, sw.vector(kind, h['i'] - 1, t.pdm.n_active_components))
            vk = v.copy()
            t._from_vector_inplace(v)
            if not np.array_equal(v, vk):
                yield tag + '/vector-argument-changed', c
            v += 3.
        elif h['op'] == 'active':
            # the model changes under the warp; the warp follows when it is next
            # given its target or parameters
            t.pdm.n_active_components = h['i']
            t.set_target(t.pdm.target)
        elif h['op'] == 'compose':
            v = bases.vec(kind, sw.vector(kind, h['i'] - 1, t.pdm.n_active_components))
            v[4:] = 0.
            t.compose_after_from_vector_inplace(v)
    p = np.hstack([arr(c['q']) if c['q'] else [], arr(c['b']) if c['b'] else []])
    p = bases.vec(kind, p)
    for v in state(c, t, tag, kind, p, X):
        yield v
    # a copy built from the vector is the same warp and leaves this one alone
    n = t.from_vector(p)
    for v in state(c, n, tag + '-from-vector', kind, p, X):
        yield v
    n._from_vector_inplace(np.zeros(len(p)))
    if not close(n.apply(X), X, 1e-7) or not close(n.target.as_vector(), sw.MEAN, 1e-7):
        yield tag + '/identity-parameters', (c, n.apply(X).tolist())
    for v in state(c, t, tag, kind, p, X):
        yield v
    # the pseudoinverse is the warp of the negated parameters
    if t.has_true_inverse or not close(t.pseudoinverse_vector(p), -p, 1e-9):
        yield tag + '/pseudoinverse-vector', c
    if kind != 'ortho':
        i = t.pseudoinverse()
        if not close(i.as_vector(), -p, 1e-7) or i is t or not close(i.apply(src), t.from_vector(-p).apply(src), 1e-7):
            yield tag + '/pseudoinverse', (c, i.as_vector().tolist(), p.tolist())
        i._from_vector_inplace(np.zeros(len(p)))
    # what composition does to the parameters is linear in the update
    if c['tps'] or not np.any(p):
        J = np.array(t.Jp())
        n = t.from_vector(p)
        if J.shape != (len(p), len(p)) or (not np.any(p) and not close(J, np.eye(len(p)), 1e-6)):
            yield tag + '/Jp-at-identity', (c, J.tolist())
        else:
            for d in np.vstack([np.eye(len(p)), np.arange(len(p))[None] - 1.]) * .125:
                n._from_vector_inplace(p.copy())
                n.compose_after_from_vector_inplace(d.copy())
                if not close(n.as_vector(), p + J.dot(d), 1e-6):
                    yield tag + '/Jp', (c, d.tolist(), n.as_vector().tolist(), (p + J.dot(d)).tolist())
                    break
    for v in state(c, t, tag, kind, p, X):
        yield v
    if not comp:
        # composition at the identity is the update itself
        n._from_vector_inplace(np.zeros(len(p)))
        n.compose_after_from_vector_inplace(p.copy())
        if not close(n.as_vector(), p, 1e-6):
            yield tag + '/compose-at-identity', (c, n.as_vector().tolist())


def state(c, t, tag, kind, p, X):
    src = sw.MEAN.reshape(-1, 2)
    target = arr(c['target'])
    if not close(t.target.as_vector(), target, 1e-7) or not close(t.pdm.target.as_vector(), target, 1e-7):
        yield tag + '/target', (c, t.target.as_vector().tolist())
    if not close(t.apply(src).ravel(), target, 1e-6):
        yield tag + '/source-not-on-target', (c, t.apply(src).tolist())
    if not close(t.as_vector(), p, 1e-7) or t.n_parameters != len(p):
        yield tag + '/parameters', (c, t.as_vector().tolist(), p.tolist())
        return
    # derivative of the target, in the basis of the code
    d = arr(c['dp'])             # (points, params, 2), basis of the specification
    d = np.stack([change(d[i], kind, t) for i in range(len(d))])
    if not c['tps']:
        if not close(t.apply(X), arr(c['w']), 1e-7):
            yield tag + '/map', (c, t.apply(X).tolist())
        if not close(t.d_dp(X), d, 1e-7):
            yield tag + '/derivative', (c, np.asarray(t.d_dp(X)).tolist())
        if not close(t.d_dp(X[::-1].copy()), d[::-1], 1e-7):
            yield tag + '/derivative-order', c
    corners = d[1:5]
    if not close(t.d_dp(src.copy()), corners, 1e-6):
        yield tag + '/derivative-at-landmarks', (c, np.asarray(t.d_dp(src)).tolist(), corners.tolist())
    W = t.transform.d_dl(X[5:])
    if not close(t.d_dp(X[5:].copy()), np.einsum('ild,lpd->ipd', W, corners), 1e-6):
        yield tag + '/derivative-chain', c
    if c['tps']:
        # the same array, other points (menpo's own piecewise affine warp keeps
        # what it knows about an array whose contents have changed)
        Y = src.copy()
        t.d_dp(Y)
        Y[...] = src[::-1]
        if not close(t.d_dp(Y), corners[::-1], 1e-6):
            yield tag + '/derivative-points-moved', c


def change(d, kind, t):
    """d (params, 2) from the specification's basis to the code's."""
    if kind != 'ortho':
        return d
    Q = np.asarray(t.pdm.similarity_model.components).dot(sw.E.T)
    Bm = np.asarray(t.pdm.model.components).dot(sw.B[:len(t.pdm.model.components)].T)
    return np.vstack([Q.dot(d[:4]), Bm.dot(d[4:])])


SGN = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]], float)


def linear(c):
    from menpo.model import PCAModel
    from menpo.shape import TriMesh, PointCloud
    from menpofit.transform import LinearOrthoMDTransform
    m = c['m']
    comps = np.array([np.hstack([SGN[b, j] * sw.B[j] for b in range(4)]) / 2 for j in range(m)])
    mean = np.tile(sw.MEAN, 4)
    model = PCAModel.init_from_components(comps.copy(), sw.EIG[:m].copy(), sw.cloud(mean), 10, True)
    sparse = TriMesh(sw.MEAN.reshape(-1, 2).copy(), trilist=np.array([[0, 1, 2], [0, 2, 3]]))
    t = LinearOrthoMDTransform(model, sparse)
    big = np.tile(sw.E, (1, 4)) / 2
    Q = np.asarray(t.similarity_model.components).dot(big.T)
    A = np.asarray(t.model.components).dot(comps.T)
    mk = lambda i, b: sw.shape(dict(sw.TARGETS[i - 1], b=SGN[b] * sw.TARGETS[i - 1]['b']))
    for h in c['hist']:
        i = h['i']
        if h['op'] == 'sparse':
            x = sw.cloud(sw.shape(sw.TARGETS[i - 1]))
            xk = x.as_vector().copy()
            t.set_target(x)
            if not np.array_equal(xk, x.as_vector()):
                yield 'target-argument-changed', c
            x.points[...] += 5.
        elif h['op'] == 'full':
            t.set_target(sw.cloud(np.hstack([mk(i, b) for b in range(4)])))
        else:
            v = np.hstack([2 * Q.dot(sw.QVECS[i - 1]), 2 * A.dot(np.array(sw.BVECS[i - 1], float)[:m])])
            t._from_vector_inplace(v)
            v += 3.
    for r in range(2):
        want = arr(c['tgt']).reshape(4, 8)
        p = np.hstack([2 * Q.dot(arr(c['q'])), 2 * A.dot(arr(c['b']))])
        if not close(t.as_vector(), p, 1e-7):
            yield 'parameters', (c, t.as_vector().tolist(), p.tolist())
        if not close(t.target.as_vector(), want.ravel(), 1e-7):
            yield 'target', (c, t.target.as_vector().tolist())
        if t.n_landmarks != 4 or not close(t.sparse_target.as_vector(), want[0], 1e-7) or \
                not isinstance(t.sparse_target, TriMesh):
            yield 'sparse-target', (c, t.sparse_target.as_vector().tolist())
        if not close(t.dense_target.as_vector(), want[1:].ravel(), 1e-7):
            yield 'dense-target', (c, t.dense_target.as_vector().tolist())
        for P in (np.zeros((12, 2)), want[1:].reshape(-1, 2)):
            if not close(t.apply(P), want[1:].reshape(-1, 2), 1e-7):
                yield 'map', c
        # derivative of the dense target
        d = np.asarray(t.d_dp(None))
        if d.shape != (12, 4 + m, 2):
            yield 'derivative-shape', (c, d.shape)
        else:
            n = t.copy()
            for j in range(4 + m):
                base = p.copy()
                if j < 4:
                    base[4:] = 0.
                u = np.zeros(len(p))
                u[j] = 1e-3
                n._from_vector_inplace(base + u)
                hi = n.dense_target.points.copy()
                n._from_vector_inplace(base - u)
                if not close(d[:, j], (hi - n.dense_target.points) / 2e-3, 1e-6):
                    yield 'derivative', (c, j)
        # the vector round-trips
        t = t.from_vector(t.as_vector())


def no_source(c):
    """Without a source the model mean is the source."""
    t, _ = warp(c['kind'], c['tps'], source=False)
    src = sw.MEAN.reshape(-1, 2)
    if not close(t.apply(src), src, 1e-7):
        yield 'default-source', c
    x = sw.shape(sw.TARGETS[1])
    t.set_target(sw.cloud(x))
    if not close(t.apply(src).ravel(), t.target.as_vector(), 1e-6):
        yield 'default-source', c


def run(ctx):
    kinds = {'pdm', 'ortho', 'global'}
    cs = ctx.tlc('ModelWarp', dict(Kinds=kinds, Targets=sw.TARGETS, QVecs=sw.QVECS, BVecs=sw.BVECS,
                                   Actives={2, 4}, MaxOps=ctx.pick(2, 3), WithIncrement=False, EvalPoints=EVAL),
                 spec='SpecWarp', invariants=['Barycentric', 'InStep', 'LengthsAgree', 'DerivativeTrue',
                                              'GlobalDerivativeAtMean', 'EmitWarp'], workers=8).cases
    cs.sort(key=lambda c: (c['kind'], len(c['hist']), str(c['hist'])))
    out = []
    for c in cs:
        for tps in (False, True):
            if any(h['op'] == 'compose' for h in c['hist']) and not tps:
                continue     # needs the true spatial derivative of the warp (P09 finding)
            out.append(dict(c, tps=tps))
    rng = np.random.RandomState(ctx.seed)
    lim = ctx.pick(1500, 8000)
    if len(out) > lim:
        out = [out[i] for i in sorted(rng.choice(len(out), lim, replace=False))]
    ctx.replay('warp', out, replay)
    ls = ctx.tlc('LinearWarp', dict(Kinds={'ortho'}, Targets=sw.TARGETS, QVecs=sw.QVECS, BVecs=sw.BVECS,
                                    Actives={4}, MaxOps=ctx.pick(2, 3), WithIncrement=False, NModes={2, 4}),
                 spec='LSpec', invariants=['FollowsParameters', 'Reaches', 'EmitLinear'], workers=8).cases
    ls.sort(key=lambda c: (c['m'], len(c['hist']), str(c['hist'])))
    ctx.replay('linear', ls, linear)
    ctx.replay('default-source', [dict(kind=k, tps=b) for k in sorted(kinds) for b in (False, True)], no_source)
