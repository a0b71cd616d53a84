"""Springs.tla replayed: the Gauss-Newton optimisers of pictorial structures
in a small linear world."""
import numpy as np
from p06 import vec
from p21 import q2

CONSTANTS = ('Samplings', 'Landmarks', 'Channels', 'Patch', 'Images', 'Mean', 'QA', 'D', 'QD', 'SBar', 'Home', 'Starts', 'MaxIters')


class Toy(object):
    """shape = home + D p"""
    n_dims = 2

    def __init__(self, D, home):
        self.D, self.home = np.array(D, float), np.array(home, float)
        self.n_parameters = self.D.shape[1]
        self.p = np.zeros(self.n_parameters)

    def d_dp(self, points):
        return np.rollaxis(self.D.reshape(-1, 2, self.n_parameters), 1, 3)

    def as_vector(self):
        return self.p.copy()

    def _from_vector_inplace(self, v):
        self.p = np.array(v, float)

    from_vector_inplace = _from_vector_inplace

    def shape(self, p):
        from menpo.shape import PointCloud
        return PointCloud((self.home + self.D.dot(np.asarray(p, float))).reshape(-1, 2))

    @property
    def target(self):
        return self.shape(self.p)

    def set_target(self, t):
        self.p = np.linalg.lstsq(self.D, t.points.ravel() - self.home, rcond=None)[0]


def gmrf(precision, mean, template, sparse):
    from menpo.model import GMRFModel
    m = GMRFModel.__new__(GMRFModel)
    m.precision, m.mean_vector, m.template_instance, m.sparse = precision, mean, template, sparse
    m.n_samples, m.n_features, m.n_components, m.bias, m.is_incremental, m.mode = 5, len(mean), None, 0, False, 'concatenation'
    return m


def check(arg):
    from scipy.sparse import bsr_matrix
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.aps.algorithm import gn
    w, c = arg
    bad = []
    size = (w['Landmarks'], 1, w['Channels'], 1, w['Patch'])

    def patches(v):
        return Image(np.array(v, float).reshape(size))

    class Planned(gn.GaussNewtonBaseInterface):
        def warp(self, image):
            im = patches(self.plan[min(self.shown, len(self.plan) - 1)])
            self.shown += 1
            self.seen.append(self.transform.as_vector())
            return im

        def gradient(self, image):
            v = image.pixels.ravel()
            return np.stack([np.roll(v, -1) - v, v]).reshape((2,) + image.pixels.shape)
    tr = Toy(w['D'], w['Home'])
    mean = patches(w['Mean'])
    QA = bsr_matrix(np.array(w['QA'], float), blocksize=(w['Channels'] * w['Patch'],) * 2)
    am = gmrf(QA, mean.as_vector(), mean, True)
    dm = gmrf(np.array(w['QD'], float), np.array(w['SBar'], float), tr.shape(np.zeros(tr.n_parameters)), False)
    taken = w['Samplings'][c['sampling'] - 1]
    mask = np.zeros((1, w['Patch']), bool)
    mask[0, np.array(taken) - 1] = True
    tag = '%s-%s' % (c['dir'], 'free' if c['free'] else 'tied')
    case = (tag, dict(world=w['name'], weight=c['weight'], taken=taken, start=w['Starts'][c['start'] - 1], imgs=c['imgs']))
    ways = [mask]
    if mask.all():
        ways.append(None)
    for step in range(1, w['Patch'] + 1):
        if np.array_equal(np.flatnonzero(mask), np.arange(0, w['Patch'], step)):
            ways.append(step)
    sampling = ways[sum(c['imgs']) % len(ways)]
    itf = Planned(am, dm, tr, q2(c['weight']), c['free'], mean, sampling, (1, w['Patch']), lambda x: x)
    itf.plan, itf.shown, itf.seen = [w['Images'][x - 1] for x in c['imgs']], 0, []
    alg = {'f': gn.Forward, 'i': gn.Inverse}[c['dir']](itf)
    start = tr.shape(w['Starts'][c['start'] - 1])
    before = start.points.copy()
    QAb, QDb = np.array(QA.todense()), dm.precision.copy()
    want = [vec(t['p']) for t in c['trail']]
    n = len(want) - 1
    if np.array_equal(want[-1], want[-2]):
        n += 2                          # it has settled: it must stop by itself
    r = alg.run(Image(np.zeros((1, 4, 4))), start, max_iters=n, return_costs=True)
    P = [np.asarray(v, float) for v in r.shape_parameters]
    S = [s.points for s in r.shapes][-len(P):]
    if n > len(want) - 1 and len(P) > len(want) and np.allclose(P[len(want):], want[-1], atol=1e-7):
        P, S = P[:len(want)], S[:len(want)]          # noticing it to rounding
    if len(P) != len(want):
        return [('lengths-' + tag, (case, len(P), len(want)))]
    for k, (x, y) in enumerate(zip(P, want)):
        if not np.allclose(x, y, atol=1e-6 * max(1., np.abs(y).max())):
            return [('parameters-' + tag, (case, k, x.tolist(), y.tolist()))]
        if not np.allclose(S[k], tr.shape(x).points, atol=1e-9):
            bad.append(('shape-' + tag, (case, k)))
        for name, got in (('all', r.costs), ('patches', r.appearance_costs), ('springs', r.deformation_costs)):
            if c['trail'][k]['costs'][name][1] == 0:      # not representable
                continue
            y = q2(c['trail'][k]['costs'][name])
            if len(got) < len(P) or abs(float(got[k]) - y) > 1e-6 * max(1., abs(y)):
                bad.append(('cost-%s-%s' % (name, tag), (case, k, [float(v) for v in got], y)))
                break
    for k, v in enumerate(itf.seen[:len(P)]):
        if not np.allclose(v, P[k], atol=1e-9):
            bad.append(('image-elsewhere-' + tag, (case, k)))
            break
    if not (np.array_equal(before, start.points) and np.array_equal(QAb, np.array(QA.todense())) and np.array_equal(QDb, dm.precision)
            and np.array_equal(mean.pixels, patches(w['Mean']).pixels)):
        bad.append(('inputs-changed-' + tag, case))
    return bad


def world(rng, k):
    """A random sparse world with small integers."""
    L, C = 3, 1 + (k % 3 == 1)
    W = 2 + (k % 2 == 0) if C == 1 else 2
    N, n, R = L * C * W, 5, 2 * L
    mean = rng.randint(0, 2, N)
    images = [mean] + [mean + rng.randint(-1, 2, N) for _ in range(2)]
    QA = np.eye(N, dtype=int)
    for _ in range(3):                  # pixels of any patches are coupled
        i, j = rng.choice(N, 2, replace=False)
        QA[i, i] += 1
        QA[j, j] += 1
        QA[i, j] = QA[j, i] = rng.choice([1, -1])
    QD = np.eye(R, dtype=int)
    for _ in range(2):
        i, j = rng.choice(R, 2, replace=False)
        QD[i, i] += 1
        QD[j, j] += 1
        QD[i, j] = QD[j, i] = rng.choice([1, -1])
    while True:
        D = np.zeros((R, n), int)
        for r in range(R):
            D[r, rng.randint(n)] = rng.choice([1, 1, -1])
        D[rng.randint(R), rng.randint(n)] = 1
        if np.linalg.matrix_rank(D) == n:
            break
    samplings = [list(range(1, W + 1)), [1, 3] if W == 3 else [1]] + ([[2]] if k % 2 else [[2, 3]] if W == 3 else [])
    home = rng.randint(0, 9, R)
    return dict(name='s%d' % k, Samplings=samplings, Landmarks=L, Channels=C, Patch=W, Images=[v.tolist() for v in images], Mean=mean.tolist(),
                QA=QA.tolist(), D=D.tolist(), QD=QD.tolist(), SBar=home.tolist() if k % 2 else rng.randint(0, 9, R).tolist(), Home=home.tolist(),
                Starts=[[0] * n, rng.randint(-2, 3, n).tolist()], MaxIters=2)
