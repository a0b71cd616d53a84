"""P16 - error statistics match their definitions (ErrStats.tla)."""
import numpy as np

RNG = None


def f(q):
    return q[0] / q[1]


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1., abs(float(b)))


def on_bin(c):
    return any(e in c['bins'] for e in c['errs'])


def stats(c, u):
    """Expected statistics in real units."""
    return [f(c['mean']) * u, np.sqrt(f(c['var'])) * u, f(c['med']) * u, f(c['mad']) * u,
            c['max'] * u, f(c['auc']), f(c['fr'])]


NAMES = ['mean', 'std', 'median', 'mad', 'max', 'auc', 'fr']


def spellings(c, u, rng):
    e = [x * u for x in c['errs']]
    p = list(rng.permutation(len(e)))
    return [('list', e), ('permuted', [e[i] for i in p]), ('array', np.array(e)),
            ('reversed-array', np.array(e)[::-1])]


def single(c):
    from menpofit import error as E
    rng = np.random.RandomState(sum(c['errs']) + 7 * c['hi'])
    # 1/8: every quantity exact in binary; decimal units only where no error
    # sits on a bin (the last digit of a decimal bin is not the caller's)
    units = [0.125] if on_bin(c) else [0.125, 0.01, 0.005]
    for u in units:
        lo, hi, st = c['lo'] * u, c['hi'] * u, c['st'] * u
        bins = [b * u for b in c['bins']]
        want = stats(c, u)
        for nm, e in spellings(c, u, rng):
            keep = [float(x) for x in e]
            b0 = list(bins)
            got = E.compute_cumulative_error(e, bins)
            if len(got) != len(bins) or not all(close(g, f(w)) for g, w in zip(got, c['ced'])):
                yield 'ced', (nm, u, c['errs'], bins, got)
            m = E.mad(e)
            if not close(m, want[3]):
                yield 'mad', (nm, u, c['errs'], m)
            a, fr = E.area_under_curve_and_failure_rate(e, st, hi, min_error=lo)
            if not close(a, want[5]):
                yield 'auc', (nm, u, c, a)
            if not close(fr, want[6]):
                yield 'failure-rate', (nm, u, c, fr)
            got = E.compute_statistical_measures(e, st, hi, min_error=lo)
            if len(got) != 7:
                yield 'measures', len(got)
            for k, g, w in zip(NAMES, got, want):
                if not close(g, w):
                    yield 'measures-' + k, (nm, u, c, g, w)
            if [float(x) for x in e] != keep or bins != b0:
                yield 'argument-changed', (nm, c)


def group(cs):
    """Several methods at once: per method and in order."""
    from menpofit import error as E
    u = 0.125
    c0 = cs[0]
    lo, hi, st = c0['lo'] * u, c0['hi'] * u, c0['st'] * u
    es = [[x * u for x in c['errs']] for c in cs]
    for nm, arg in (('lists', es), ('arrays', [np.array(e) for e in es])):
        keep = [list(map(float, e)) for e in arg]
        got = E.compute_statistical_measures(arg, st, hi, min_error=lo)
        for k, (name, g) in enumerate(zip(NAMES, got)):
            if len(g) != len(cs):
                yield 'methods-' + name, (nm, len(g))
                continue
            for j, c in enumerate(cs):
                if not close(g[j], stats(c, u)[k]):
                    yield 'methods-' + name, (nm, j, [x['errs'] for x in cs], list(g))
        if [list(map(float, e)) for e in arg] != keep:
            yield 'argument-changed', nm


def table(cs):
    from menpofit.visualize import statistics_table
    u = 0.125
    c0 = cs[0]
    lo, hi, st = c0['lo'] * u, c0['hi'] * u, c0['st'] * u
    es = [[x * u for x in c['errs']] for c in cs]
    names = ['m%d' % i for i in range(len(cs))]
    rows = [stats(c, u) for c in cs]
    for nm, arg in (('lists', es), ('arrays', [np.array(e) for e in es])):
        for sort in (None, 'auc', 'mean', 'fr'):
            t = statistics_table(arg, names, hi, st, auc_min_error=lo, sort_by=sort)
            if sorted(t.index) != names or list(t.columns) != NAMES:
                yield 'table-shape', (nm, list(t.index), list(t.columns))
                continue
            if sort is None and list(t.index) != names:
                yield 'table-order', (nm, list(t.index))
            for i, n in enumerate(names):
                for k, w in zip(NAMES, rows[i]):
                    if not close(t.loc[n, k], w):
                        yield 'table-' + k, (nm, sort, n, t.loc[n, k], w)
            if sort:
                v = [float(x) for x in t[sort]]
                if v != sorted(v, reverse=sort == 'auc'):
                    yield 'table-sorting', (nm, sort, v)
        # a selection of columns under other names
        t = statistics_table(arg, names, hi, st, auc_min_error=lo,
                             stats_types=['max', 'fr'], stats_names=['A', 'B'])
        if list(t.columns) != ['A', 'B'] or not all(
                close(t.loc[n, 'A'], r[4]) and close(t.loc[n, 'B'], r[6]) for n, r in zip(names, rows)):
            yield 'table-selection', nm
    for bad in (dict(stats_types=['mean'], stats_names=['a', 'b']), dict(stats_types=['nope']),
                dict(sort_by='nope')):
        try:
            statistics_table(es, names, hi, st, **bad)
            yield 'table-accepts', bad
        except ValueError:
            pass


def curve(cs):
    """The plotted CED is the curve of each method."""
    import matplotlib.pyplot as plt
    from menpofit.visualize import plot_cumulative_error_distribution
    u = 0.125
    c0 = cs[0]
    for nm, arg in (('lists', [[x * u for x in c['errs']] for c in cs]),
                    ('arrays', [np.array(c['errs']) * u for c in cs])):
        r = plot_cumulative_error_distribution(
            arg, error_range=[c0['bins'][0] * u, c0['bins'][-1] * u + u / 2, c0['st'] * u])
        lines = r.figure.axes[0].lines
        if len(lines) != len(cs):
            yield 'curve-count', (nm, len(lines))
        else:
            for l, c in zip(lines, cs):
                y = [f(w) for w in c['ced']]
                if len(y) != len(l.get_ydata()) or not np.allclose(y, l.get_ydata()):
                    yield 'curve-values', (nm, c['errs'])
        plt.close('all')


def run(ctx):
    cs = ctx.tlc('ErrStats', dict(MaxN=ctx.pick(4, 5), MaxE=ctx.pick(5, 7), MaxHi=ctx.pick(6, 8),
                                  MaxStep=3),
                 invariants=['CedMonotone', 'CedRange', 'FailureConsistent', 'AucRange',
                             'VarNonNegative', 'Emit']).cases
    cs.sort(key=lambda c: (c['lo'], c['hi'], c['st'], len(c['errs']), c['errs']))
    rng = np.random.RandomState(ctx.seed)
    sel = cs
    lim = ctx.pick(6000, 40000)
    if len(cs) > lim:
        sel = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    ctx.replay('single', sel, single)
    by = {}
    for c in cs:
        by.setdefault((c['lo'], c['hi'], c['st']), []).append(c)
    groups = []
    for k in sorted(by):
        for m in (2, 3):
            groups.append([by[k][i] for i in rng.choice(len(by[k]), m, replace=False)])
    ctx.replay('methods', groups, group)
    ctx.replay('table', groups[::ctx.pick(3, 1)], table)
    ctx.replay('curve', groups[::ctx.pick(12, 3)], curve)
    # the bins derived from a decimal range end at its maximum
    dec = [dict(st=s, k=k) for s in (0.001, 0.01, 0.005, 0.1) for k in range(2, ctx.pick(60, 250))]
    ctx.replay('decimal-range', dec, decimal)


def decimal(c):
    from menpofit import error as E
    hi = round(c['st'] * c['k'], 6)
    e = [hi - c['st'] / 2, hi + c['st'] / 2]
    a, fr = E.area_under_curve_and_failure_rate(e, c['st'], hi)
    if abs(fr - 0.5) > 1e-9:
        yield 'failure-rate', (c, fr)
