"""P12 - regressors solve their regression problem, incrementally too
(Regress.tla)."""
import numpy as np
from core import Raw

ROWS = None


def f(q):
    return q[0] / q[1]


def mat(M):
    return np.array([[f(q) for q in r] for r in M])


def data(b):
    return (np.array([ROWS[i - 1]['x'] for i in b], float),
            np.array([ROWS[i - 1]['y'] for i in b], float))


PROBE = None


def coef_of(r, d, bias):
    """Coefficients (and bias row) read off the predictions, for one vector at
    a time and for a matrix of them."""
    E = np.vstack([np.eye(d), np.zeros((1, d)), np.arange(1., d + 1)[None]])
    P = np.asarray(r.predict(E))
    S = np.array([np.asarray(r.predict(e)).ravel() for e in E])
    P = P.reshape(len(E), -1)
    return P, S


def check_linear(c, r, X, clause):
    W = mat(c['coef'])
    d = X.shape[1]
    P, S = coef_of(r, d, c['bias'])
    E = np.vstack([np.eye(d), np.zeros((1, d)), np.arange(1., d + 1)[None]])
    if c['bias']:
        E = np.hstack([E, np.ones((len(E), 1))])
    want = E.dot(W)
    tol = 1e-7 * max(1., np.abs(want).max())
    if P.shape != want.shape or np.abs(P - want).max() > tol:
        yield clause, (c, P.tolist(), want.tolist())
    elif np.abs(S - want).max() > tol:
        yield clause + '-vector', (c, S.tolist(), want.tolist())


def replay(c):
    from menpofit import math as M
    k, a, a2, b = c['kind'], f(c['alpha']), f(c['alpha2']), c['bias']
    if k in ('direct', 'indirect'):
        if k == 'direct':
            mk = lambda inc: M.IRLRegression(alpha=a, bias=b, incrementable=inc)
        else:
            mk = lambda inc: M.IIRLRegression(alpha=a, alpha2=a2, incrementable=inc)
        allb = [i for x in c['bat'] for i in x]
        X, Y = data(allb)
        # in increments
        r = mk(True)
        for j, bb in enumerate(c['bat']):
            Xb, Yb = data(bb)
            Xk, Yk = Xb.copy(), Yb.copy()
            (r.train if j == 0 else r.increment)(Xb, Yb)
            if not (np.array_equal(Xb, Xk) and np.array_equal(Yb, Yk)):
                yield k + '-argument-changed', c
            r.predict(Xb[0])
        for v in check_linear(c, r, X, k + ('-incremental' if len(c['bat']) > 1 else '-trained')):
            yield v
        # at once
        for inc in (False, True):
            r = mk(inc)
            r.train(X, Y)
            for v in check_linear(c, r, X, k + '-trained'):
                yield v
        r = mk(False)
        r.train(X, Y)
        before = r.predict(X)
        try:
            r.increment(X, Y)
            yield k + '-increments-although-not-incrementable', c
        except ValueError:
            if not np.allclose(before, r.predict(X)):
                yield k + '-refused-increment-changed-model', c
        # training again forgets the previous data
        r = mk(True)
        r.train(2 * X, 3 * Y)
        r.train(X, Y)
        for v in check_linear(c, r, X, k + '-retrained'):
            yield v
    elif k == 'ols':
        X, Y = data(c['bat'][0])
        for nm, r in (('pcr', M.PCRRegression(bias=b)), ('optimal', M.OptimalLinearRegression(bias=b))):
            Xk, Yk = X.copy(), Y.copy()
            r.train(X, Y)
            if not (np.array_equal(X, Xk) and np.array_equal(Y, Yk)):
                yield nm + '-argument-changed', c
            for v in check_linear(c, r, X, nm):
                yield v
    else:
        X, Y = data(c['bat'][0])
        r = M.OPPRegression(bias=b)
        Xk, Yk = X.copy(), Y.copy()
        r.train(X, Y)
        if not (np.array_equal(X, Xk) and np.array_equal(Y, Yk)):
            yield 'opp-argument-changed', c
        P, S = coef_of(r, X.shape[1], b)
        d = X.shape[1]
        R = P[:d] - P[d] if b else P[:d]
        if b:
            R = np.vstack([R, P[d]])
        elif np.abs(P[d]).max() > 1e-9:
            yield 'opp-offset', c
        if not np.allclose(P, S):
            yield 'opp-vector', c
        rank2 = f(c['procr']['det']) > 0
        Mx = mat(c['procr']['m'])
        want = np.sqrt(f(c['procr']['tr']) + 2 * np.sqrt(f(c['procr']['det'])))
        if abs(np.trace(R.T.dot(Mx)) - want) > 1e-7 * max(1., want):
            yield 'opp-not-optimal', (c, R.tolist())
        if not np.allclose(R.T.dot(R), np.eye(2), atol=1e-8):
            yield 'opp-not-orthonormal', (c, R.tolist())


def exact(c):
    """Prediction is exact on data the model class can represent."""
    from menpofit import math as M
    rng = np.random.RandomState(c['seed'])
    n, d, k = c['n'], c['d'], c['k']
    X = rng.randint(-5, 6, (n, d)).astype(float)
    B = rng.randint(-3, 4, (d, k)).astype(float)
    b0 = rng.randint(-3, 4, (1, k)).astype(float)
    new = rng.randint(-5, 6, (4, d)).astype(float)
    for bias in (False, True):
        f_ = lambda x: x.dot(B) + (b0 if bias else 0.)
        A = np.hstack([X, np.ones((n, 1))]) if bias else X
        if np.linalg.matrix_rank(A) < A.shape[1]:
            continue
        for nm, r in (('irl', M.IRLRegression(alpha=0, bias=bias)), ('pcr', M.PCRRegression(bias=bias)),
                      ('optimal', M.OptimalLinearRegression(bias=bias))):
            r.train(X, f_(X))
            if not np.allclose(r.predict(new), f_(new), atol=1e-6):
                yield 'exact-' + nm, c
    Q, _ = np.linalg.qr(rng.randn(d, d))
    if np.linalg.matrix_rank(X) == d:
        r = M.OPPRegression(bias=False)
        r.train(X, X.dot(Q))
        if not np.allclose(r.predict(new), new.dot(Q), atol=1e-7):
            yield 'exact-opp', c
        if k == 1 or True:
            Y = X.dot(rng.randint(-3, 4, (d, d)) + 7 * np.eye(d))
            r = M.IIRLRegression()
            r.train(X, Y)
            if not np.allclose(r.predict(X), Y, atol=1e-6):
                yield 'exact-indirect', c


def run(ctx):
    global ROWS
    ROWS = [dict(x=[1, 0], y=[2, 1]), dict(x=[0, 1], y=[-1, 1]), dict(x=[2, -1], y=[0, 3]),
            dict(x=[1, 2], y=[1, -2]), dict(x=[-1, 1], y=[3, 0])]
    invs = ['InverseExact', 'SolutionExact', 'Emit']
    A = Raw('{<<0,1>>, <<1,2>>, <<3,1>>}')
    A2 = Raw('{<<0,1>>, <<1,2>>}')
    cs = ctx.tlc('Regress', dict(Rows=ROWS, Kinds={'direct'}, Alphas=A, Alphas2=A2, MaxFirst=3, MaxBatch=2,
                                 MaxTotal=ctx.pick(4, 5)), invariants=invs, workers=8).cases
    # (32-bit rationals bound the indirect problem to three samples in total)
    for i in range(ctx.pick(1, 2)):
        new = ctx.tlc('Regress', dict(Rows=ROWS[i:i + 4], Kinds={'indirect'}, Alphas=Raw('{<<0,1>>, <<1,1>>}'),
                                      Alphas2=ctx.pick(A2, Raw('{<<0,1>>, <<1,2>>, <<1,1>>}')), MaxFirst=2,
                                      MaxBatch=2, MaxTotal=3), invariants=invs, workers=8).cases
        for c in new:
            c['bat'] = [[j + i for j in b] for b in c['bat']]
        cs += new
    cs += ctx.tlc('Regress', dict(Rows=ROWS, Kinds={'ols', 'opp'}, Alphas=A, Alphas2=A2, MaxFirst=4,
                                  MaxBatch=1, MaxTotal=4), invariants=invs, workers=8).cases
    for c in cs:
        c['rank'] = 0
    # (a rank-deficient cross-covariance has no unique Procrustes solution, but
    # still an optimal value)
    rng = np.random.RandomState(ctx.seed)
    cs.sort(key=lambda c: (c['kind'], c['alpha'], c['alpha2'], c['bias'], c['bat']))
    for kind, lim in (('direct', ctx.pick(9000, 60000)), ('indirect', ctx.pick(4000, 30000)),
                      ('ols', ctx.pick(2000, 4000)), ('opp', ctx.pick(1200, 4000))):
        s = [c for c in cs if c['kind'] == kind]
        if len(s) > lim:
            s = [s[i] for i in sorted(rng.choice(len(s), lim, replace=False))]
        ctx.replay(kind, s, replay)
    ex = [dict(seed=s, n=n, d=d, k=k) for s in range(ctx.pick(5, 40)) for n in (6, 9) for d in (2, 3, 4)
          for k in (1, 2, 3)]
    ctx.replay('exact', ex, exact)
