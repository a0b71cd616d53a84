"""P06: landmark-expert fitting steps (Experts.tla)."""
import warnings
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import shapeworld as sw
from core import Raw
from pool import pmap
from p07 import Bases
from p21 import q2

LN = 1 / (2 * np.log(2))        # covariance of 2^(-|g|^2)


class Stub(object):
    """An ensemble that answers with the planned responses and records where
    it was asked."""
    def __init__(self, maps, plan):
        self.search_shape = np.shape(maps[0])
        self.n_experts = 4
        self.maps = [np.array(m, float) for m in maps]
        self.plan = list(plan)
        self.asked = []

    def predict_probability(self, image, shape):
        k = len(self.asked)
        self.asked.append(shape.points.copy())
        c = self.plan[min(k, len(self.plan) - 1)]
        return np.array([[self.maps[m - 1] / self.maps[m - 1].sum()] for m in c])

    predict_response = predict_probability


def skew_basis():
    return 0.6 * sw.E + 0.8 * sw.B


def model(kind, k, eig):
    from menpo.model import PCAModel
    from menpofit.modelinstance import GlobalPDM, OrthoPDM
    from menpofit.transform import DifferentiableAlignmentSimilarity
    B = skew_basis() if kind == 'skew' else sw.B
    pca = PCAModel.init_from_components(B.copy(), np.array(eig, float), sw.cloud(sw.MEAN), 10, True)
    m = OrthoPDM(pca) if kind == 'ortho' else GlobalPDM(pca, DifferentiableAlignmentSimilarity)
    if k < 4:
        m.n_active_components = k
    return m


def vec(v):
    return np.array([q2(x) for x in v], float)


def image():
    from menpo.image import Image
    return Image(np.zeros((1, 4, 4)))


def step(arg):
    """One behaviour of Experts.tla, replayed."""
    maps, sharp, max_iters, starts, eig, c = arg
    from menpofit.clm.algorithm import gd
    bad = []
    m = model(c['kind'], c['k'], eig)
    ba = Bases(m, 'ortho' if c['kind'] == 'ortho' else '')
    t = starts[c['start'] - 1]
    plan = [x['c'] for x in c['trail']]
    ens = Stub(maps, plan)
    if c['alg'] == 'asm':
        alg = gd.ActiveShapeModel(ens, m, gaussian_covariance=1e-3 if sharp else LN)
    else:
        alg = gd.RegularisedLandmarkMeanShift(ens, m, kernel_covariance=LN)
    start = sw.cloud(sw.shape(t))
    before = start.points.copy()
    r = alg.run(image(), start, max_iters=max_iters, map_inference=c['prior'])
    # where the fit stops it may stop at once or after noticing it: the list
    # of states is compared up to its last one
    case = dict(alg=c['alg'], kind=c['kind'], k=c['k'], prior=c['prior'], start=t, plan=plan, maps=[maps[i - 1] for p in plan for i in p])
    P = [np.asarray(v, float) for v in r.shape_parameters]
    # the shapes of a result begin with the initial one
    S = [s.points.ravel() for s in r.shapes][-len(P):]
    # the optimisation starts from the best fit to the initial shape
    if not np.allclose(P[0], ba.vec(c['kind'], vec(c['p0'])), atol=1e-7):
        bad.append(('initial-parameters', (case, P[0].tolist())))
        return bad
    for i, x in enumerate(c['trail']):
        if i + 1 >= len(P):
            if not np.allclose(vec(x['shape']), S[-1], atol=1e-6):
                bad.append(('steps-missing', (case, len(P))))
            break
        want = ba.vec(c['kind'], vec(x['p']))
        tag = '%s-%s' % (c['alg'], 'map' if c['prior'] else 'ml')
        if not np.allclose(P[i + 1], want, atol=1e-6):
            bad.append((tag + '-parameters', (case, i, P[i + 1].tolist(), want.tolist())))
            return bad
        if not np.allclose(S[i + 1], vec(x['shape']), atol=1e-6):
            bad.append((tag + '-shape', (case, i, S[i + 1].tolist(), vec(x['shape']).tolist(), P[i + 1].tolist(), len(S))))
            return bad
        if i < len(ens.asked) and not np.allclose(ens.asked[i].ravel(), S[i], atol=1e-9):
            bad.append(('experts-elsewhere', (case, i)))
    if len(P) > len(c['trail']) + 1 and not np.allclose(P[-1], P[len(c['trail'])], atol=1e-6):
        bad.append(('moves-after-stop', (case, len(P))))
    if len(P) > max_iters + 1 or len(r.shapes) != len(P) + 1:
        bad.append(('lengths', (case, len(P), len(S))))
    if not np.array_equal(before, start.points):
        bad.append(('start-changed', case))
    return bad


def delta(h, w, i, j):
    m = np.zeros((h, w), int)
    m[i, j] = 1
    return m.tolist()


def weighted(w):
    """Responses whose kernel-weighted value is w."""
    h, v = np.shape(w)
    return [[int(w[i][j] * 2 ** ((i - h // 2) ** 2 + (j - v // 2) ** 2)) for j in range(v)] for i in range(h)]


def deltas(h, w):
    return [delta(h, w, i, j) for i in range(h) for j in range(w)]


PURE = [dict(q=[0, 0, 0, 0], b=[0, 0, 0, 0]), dict(q=[2, -1, 3, -5], b=[0, 0, 0, 0]),
        dict(q=[-4, 1, 0, 0], b=[0, 0, 0, 0]), dict(q=[0, 0, 1, 2], b=[0, 0, 0, 0])]
BENT = [dict(q=[0, 0, 1, 2], b=[2, -1, 1, 0]), dict(q=[-1, 3, -2, 4], b=[1, 2, -1, 3])]


def verdicts(ctx, g, jobs, out):
    def verdict(i):
        st, x = out[i]
        if st == 'ok':
            for b in x:
                yield b
        else:
            yield 'raises-' + x[0], x[1]
    ctx.replay(g, range(len(jobs)), verdict, sample=0)
    if jobs:
        ctx.sample(g, jobs[0][-1])


def run_world(ctx, name, maps, sharp, combos, algs=('asm', 'rlms'), kinds=('ortho',), actives=(2, 4), priors=(False, True),
              starts=None, max_iters=1, limit=None, eig=(8, 4, 2, 2)):
    starts = starts or PURE[:2] + BENT[1:]
    # nothing is said about which of several peaks is taken
    assert 'asm' not in algs or all((np.array(m) == np.max(m)).sum() == 1 for m in maps)
    h, w = np.shape(maps[0])
    ctx.worlds.append((name, maps, sharp, starts, max_iters, limit, eig, dict(
        Algs=set(algs), Kinds=set(kinds), Actives=set(actives), Priors=Raw('{%s}' % ', '.join(str(x).upper() for x in priors)),
        Starts=starts, H=h, W=w, Sharp=sharp, Maps=maps, Combos=combos, Eig=list(eig), MaxIters=max_iters)))


def explore(ctx):
    """All worlds through TLC (a few at a time), then through the code."""
    def tlc(w):
        return ctx.tlc('Experts', w[-1], invariants=['InStep', 'Minimiser', 'FixedPoint', 'Agreement', 'Emit'], workers=3).cases
    with ThreadPoolExecutor(4) as ex:
        per = list(ex.map(tlc, ctx.worlds))
    rng = np.random.RandomState(ctx.seed)
    jobs = {}
    for (name, maps, sharp, starts, it, limit, eig, _), cases in zip(ctx.worlds, per):
        if limit and len(cases) > limit:
            cases = [cases[i] for i in sorted(rng.choice(len(cases), limit, replace=False))]
        jobs.setdefault(name, []).extend((maps, sharp, it, starts, eig, c) for c in cases)
    for name, js in jobs.items():
        verdicts(ctx, 'experts-' + name, js, pmap(step, js, workers=8, chunk=8))


# -------------------------------------------------------------- unified --
class Warp(object):
    """The transform of an appearance model: a shape model and the planned
    derivative of the warp, expressed in the basis the code chose."""
    n_dims = 2

    def __init__(self, m, DW, basis):
        self.pdm, self.n_parameters = m, m.n_parameters
        k = self.n_parameters
        self.basis = np.column_stack([basis.vec('ortho', v) for v in np.eye(k)])
        self.DW = np.array(DW, float).dot(self.basis.T)

    def d_dp(self, points):
        return np.rollaxis(self.DW, 0, 3)

    def as_vector(self):
        return self.pdm.as_vector()

    def _from_vector_inplace(self, v):
        self.pdm._from_vector_inplace(v)

    from_vector_inplace = _from_vector_inplace

    @property
    def target(self):
        return self.pdm.target

    def set_target(self, t):
        self.pdm.set_target(t)


def unified(arg):
    from menpo.model import PCAModel
    from menpofit.aam.algorithm import lk as A
    from menpofit.unified_aam_clm import algorithm as Al
    import p05
    w, c = arg
    bad = []
    m = model('ortho', w['K'], w['Eig'])
    ba = Bases(m, 'ortho')
    t = Warp(m, w['DW'], ba)
    mean = p05.masked(w['Mean'])
    comps = np.array([[q2(x) for x in r] for r in w['Comps'] + w['Spare']])
    am = PCAModel.init_from_components(comps, np.array([5.] * len(w['Comps']) + [q2(w['Sigma2'])] * len(w['Spare'])), mean, 20, True)
    am.n_active_components = len(w['Comps'])
    itf = p05.interface(A.LucasKanadeStandardInterface, am, t, mean, sampling=np.array(w['Sampled']) - 1)
    plan = w['Plans'][c['plan'] - 1]
    itf.plan, itf.shown, itf.seen = [w['Images'][x['img'] - 1] for x in plan], 0, []
    ens = Stub(w['Maps'], [x['maps'] for x in plan])
    cls = dict(alt=Al.AlternatingRegularisedLandmarkMeanShift, po=Al.ProjectOutRegularisedLandmarkMeanShift)[c['kind']]
    alg = cls(itf, ens, (3, 3), q2(w['Rho2']) * LN)
    st = w['Starts'][c['start'] - 1]
    start = sw.cloud(sw.shape(dict(q=[0, 0] + list(st['t']), b=list(st['b']))))
    before = start.points.copy()
    n = len(c['trail']) - 1
    settled = c['trail'][-1]['p'] == c['trail'][-2]['p']
    r = alg.run(p05.masked(w['Mean']), start, max_iters=n + (2 if settled else 0), prior=c['prior'], a=q2(c['w']), return_costs=True)
    tag = '%s-%s' % (c['kind'], 'map' if c['prior'] else 'ml')
    case = dict(tag=tag, world=w['name'], w=c['w'], start=st, plan=plan)
    P = [np.asarray(v, float) for v in r.shape_parameters]
    S = [s.points.ravel() for s in r.shapes][-len(P):]
    C = r.appearance_parameters if c['kind'] == 'alt' else None
    for k, x in enumerate(c['trail']):
        if k >= len(P):
            bad.append(('steps-missing-' + tag, (case, len(P))))
            break
        want = ba.vec('ortho', vec(x['p']))
        if not np.allclose(P[k], want, atol=1e-6 * max(1., np.abs(want).max())):
            return bad + [('parameters-' + tag, (case, k, P[k].tolist(), want.tolist()))]
        if C is not None and not np.allclose(C[k], vec(x['c']), atol=1e-6 * max(1., np.abs(vec(x['c'])).max())):
            return bad + [('appearance-' + tag, (case, k, np.asarray(C[k]).tolist()))]
        if k < len(ens.asked) and not np.allclose(ens.asked[k].ravel(), S[k], atol=1e-9):
            bad.append(('experts-elsewhere-' + tag, (case, k)))
        if k < len(itf.seen) and not np.allclose(itf.seen[k], P[k], atol=1e-9):
            bad.append(('image-elsewhere-' + tag, (case, k)))
    if len(P) > n + 1 and not np.allclose(P[-1], P[n], atol=1e-6):
        bad.append(('moves-after-stop-' + tag, (case, len(P))))
    if len(r.costs) != len(P):
        bad.append(('lengths-' + tag, (case, len(P), len(r.costs))))
    if not np.array_equal(before, start.points):
        bad.append(('start-changed-' + tag, case))
    return bad


def uni_world(rng, k):
    K, N = 1 + k % 2, 7
    maps = [weighted(m) for m in ([[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 1], [0, 1, 0]], [[1, 0, 0], [0, 1, 0], [0, 2, 0]],
                                  [[0, 0, 0], [0, 0, 0], [3, 0, 1]])]
    mean = [int(v) for v in rng.randint(0, 4, N)]
    comps = [[[3, 5]] + [[0, 1]] * (N - 2) + [[4, 5]]]
    spare = [[[0, 1], [1, 1]] + [[0, 1]] * (N - 2)]
    images = [mean, [mean[0] + 3] + mean[1:-1] + [mean[-1] + 4]] + [[int(v) for v in np.array(mean) + rng.randint(-1, 2, N)] for _ in range(2)]
    D = np.zeros((2, N, 4 + K), int)
    for n in range(N):
        D[rng.randint(2), n, n % (4 + K)] = int(rng.choice([1, 1, -1, 2]))
    for _ in range(2):
        D[rng.randint(2), rng.randint(N), rng.randint(4 + K)] = 1
    sampled = list(range(1, N + 1))
    if k % 3:
        sampled.remove(int(rng.choice(sampled[1:-1])))
    visit = lambda i, m: dict(img=i, maps=[int(v) for v in m])
    plans = [[visit(1, [1, 1, 1, 1])], [visit(2, [1, 1, 1, 1])], [visit(2, [2, 2, 2, 2]), visit(1, [1, 1, 1, 1])]]
    for _ in range(6):
        plans.append([visit(int(rng.randint(1, 5)), rng.randint(1, 5, 4)) for _ in range(2)])
    return dict(name='u%d' % k, K=K, Images=images, Mean=mean, Comps=comps, Spare=spare, Sampled=sampled, DW=D.tolist(), Sigma2=[2, 1],
                Eig=[4, 2, 2, 2][:4] if K == 1 else [4, 2, 1, 1], Rho2=[2, 1] if K == 1 else [1, 1],
                Starts=[dict(t=[0, 0], b=[0, 0, 0, 0]), dict(t=[1, -2], b=[2, -1, 0, 0])], Maps=maps, Plans=plans, MaxIters=2)


def run_unified(ctx):
    rng = np.random.RandomState(ctx.seed + 50)
    ws = [uni_world(rng, k) for k in range(ctx.pick(4, 16))]

    def tlc(w):
        return ctx.tlc('Unified', dict([(x, w[x]) for x in ('K', 'Images', 'Mean', 'Comps', 'Sampled', 'DW', 'Sigma2', 'Eig', 'Rho2', 'Starts', 'Maps', 'Plans', 'MaxIters')],
                                       Kinds={'alt', 'po'}, Priors=Raw('{TRUE, FALSE}'), Weights=Raw('{<<1, 2>>, <<1, 4>>, <<0, 1>>}')),
                       invariants=['Content', 'Emit'], workers=2).cases
    with ThreadPoolExecutor(4) as ex:
        per = list(ex.map(tlc, ws))
    jobs = [(w, c) for w, cs in zip(ws, per) for c in cs]
    verdicts(ctx, 'unified', jobs, pmap(unified, jobs, workers=8, chunk=8))


def run(ctx):
    warnings.simplefilter('ignore')
    run_unified(ctx)
    ctx.worlds = []
    rng = np.random.RandomState(ctx.seed)

    def mix(n, times, extra=()):
        return [list(x) for x in extra] + [[int(v) for v in rng.randint(1, n + 1, 4)] for _ in range(times)]
    allk = ('ortho', 'global')
    # modes that overlap with the similarities; eigenvalues that keep the
    # numbers small
    skew = dict(kinds=('skew',), actives=(2,), eig=(2, 2, 1, 1), starts=PURE[:3])
    # every offset of every landmark, alone and together
    d = deltas(3, 3)
    one = [[j if i == l else 5 for i in range(4)] for l in range(4) for j in range(1, 10)]
    run_world(ctx, 'deltas', d, True, [one + [[j] * 4 for j in range(1, 10)] + mix(9, ctx.pick(10, 60))], kinds=allk,
              limit=ctx.pick(1500, None))
    run_world(ctx, 'coupled', d, True, [one + mix(9, ctx.pick(10, 60))], limit=ctx.pick(500, None), **skew)
    # response maps with mass everywhere; the totals keep the numbers small
    maps = [weighted(m) for m in ([[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[1, 0, 0], [0, 0, 3], [0, 0, 0]], [[0, 1, 0], [1, 1, 1], [0, 0, 4]],
                                  [[0, 0, 1], [0, 0, 0], [3, 0, 0]], [[1, 1, 0], [1, 2, 0], [0, 0, 3]], [[0, 1, 0], [3, 0, 0], [0, 0, 1]])]
    run_world(ctx, 'maps', maps, False, [mix(6, ctx.pick(25, 200), [(1, 1, 1, 1), (3, 3, 3, 3)])], kinds=allk, limit=ctx.pick(1500, None))
    run_world(ctx, 'coupled-maps', maps, False, [mix(6, ctx.pick(10, 60)), [[1, 1, 1, 1]]], max_iters=1, **skew)
    # several iterations
    halves = [weighted(m) for m in ([[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 1], [0, 1, 0]], [[1, 0, 0], [0, 1, 0], [0, 2, 0]],
                                    [[0, 0, 0], [0, 0, 0], [3, 0, 1]])]
    n = len(halves)
    for pr, it in ((False, ctx.pick(3, 4)), (True, ctx.pick(2, 3))):
        run_world(ctx, 'deep', halves, False, [mix(n, ctx.pick(8, 30)), mix(n, ctx.pick(3, 6), [(1, 1, 1, 1)]), mix(n, 1, [(1, 1, 1, 1)])],
                  kinds=allk, algs=('rlms',), priors=(pr,), actives=(2,), max_iters=it, eig=(2, 2, 2, 2) if pr else (8, 4, 2, 2),
                  starts=[PURE[0], PURE[2], BENT[0]])
        run_world(ctx, 'deep', deltas(3, 3), True, [mix(9, ctx.pick(8, 30)), mix(9, ctx.pick(3, 6), [(5, 5, 5, 5)]), mix(9, 1, [(5, 5, 5, 5)])],
                  kinds=allk, algs=('asm',), priors=(pr,), actives=(2,), max_iters=it, eig=(2, 2, 2, 2) if pr else (8, 4, 2, 2),
                  starts=[PURE[0], PURE[2], BENT[0]])
    for h, w in ctx.pick([(4, 4), (5, 5), (7, 3), (2, 5), (11, 4), (6, 15)],
                         [(4, 4), (5, 5), (7, 3), (3, 7), (2, 5), (6, 6), (11, 4), (15, 7), (6, 15), (8, 11), (17, 17), (1, 3)]):
        d = deltas(h, w)
        cell = lambda i, j: 1 + i * w + j
        corner = [cell(i, j) for i in (0, h // 2, h - 1) for j in (0, w // 2, w - 1)]
        combos = [[c] * 4 for c in corner] + mix(h * w, ctx.pick(8, 40))
        run_world(ctx, 'window', d, True, [combos], starts=PURE[:2], actives=(3,))
    # a wide Gaussian around the peak, cut by the window
    for h, w in ctx.pick([(3, 3), (2, 3)], [(3, 3), (2, 2), (2, 3), (3, 2), (1, 3)]):
        run_world(ctx, 'wide', deltas(h, w), False, [mix(h * w, ctx.pick(20, 60), [(1, 1, 1, 1)])], algs=('asm',), starts=PURE[1:2], actives=(2,))
    explore(ctx)
