"""The rational four-point world of ShapeModel.tla, built as real menpo/menpofit
objects."""
import numpy as np

U = np.array([1., 1, -1, -1])
V = np.array([1., -1, -1, 1])
W = np.array([1., -1, 1, -1])
Z = np.zeros(4)
inter = lambda a, c: np.stack([a, c], 1).ravel()
MEAN = inter(3 * U, 4 * V)
E = np.array([inter(3 * U, 4 * V) / 10, inter(-4 * V, 3 * U) / 10, inter(U * U, Z) / 2, inter(Z, U * U) / 2])
B = np.array([inter(4 * U, -3 * V) / 10, inter(3 * V, 4 * U) / 10, inter(W, Z) / 2, inter(Z, W) / 2])
EIG = np.array([8., 4., 2., 1.])


def cloud(v):
    from menpo.shape import PointCloud
    return PointCloud(np.asarray(v, float).reshape(-1, 2).copy())


def pca(n=4):
    from menpo.model import PCAModel
    return PCAModel.init_from_components(B[:n].copy(), EIG[:n].copy(), cloud(MEAN), 10, True)


def build(kind, **kw):
    from menpofit import modelinstance as m
    from menpofit.transform import DifferentiableAlignmentSimilarity
    if kind == 'pdm':
        return m.PDM(pca(), **kw)
    if kind == 'ortho':
        return m.OrthoPDM(pca(), **kw)
    if kind == 'global':
        return m.GlobalPDM(pca(), DifferentiableAlignmentSimilarity, **kw)
    return m.GlobalSimilarityModel([cloud(MEAN), cloud(MEAN)], **kw)


def sim(a, c, t, v):
    P = np.asarray(v, float).reshape(-1, 2)
    return (P.dot(np.array([[a, -c], [c, a]]).T) + np.asarray(t)).ravel()


def shape(t):
    """Shape(t) of the specification."""
    return sim(1 + t['q'][0] / 2., t['q'][1] / 2., t['q'][2:], MEAN + np.dot(t['b'], B))


TARGETS = [dict(q=[0, 0, 0, 0], b=[0, 0, 0, 0]), dict(q=[2, -1, 3, -5], b=[0, 0, 0, 0]),
           dict(q=[0, 0, 1, 2], b=[2, -1, 1, 0]), dict(q=[-1, 3, -2, 4], b=[1, 2, -1, 3]),
           dict(q=[-4, 1, 0, 0], b=[0, 3, 0, -2])]
QVECS = [[0, 0, 0, 0], [3, -4, 2, 5], [-7, 6, -1, 1]]
BVECS = [[0, 0, 0, 0], [1, -2, 3, 1], [-2, 0, 1, -1]]


def new_shapes(i):
    rng = np.random.RandomState(40 + i)
    n = 3 + 2 * i
    return [cloud(sim(1.2 + 0.1 * j, 0.3 * (-1) ** j, [j, -2 * j], MEAN + rng.randn(4).dot(B) + 0.3 * rng.randn(8)))
            for j in range(n)]


def vector(c_kind, i, k):
    """The parameter vector of the specification's FromVector(i)."""
    g = [] if c_kind == 'pdm' else (np.array(QVECS[i], float) / (1. if c_kind == 'ortho' else 10.))
    w = [] if c_kind == 'sim' else np.array(BVECS[i], float)[:k]
    return np.hstack([g, w]).astype(float)
