"""P22: component counts and sampling masks per scale."""
import copy
import numpy as np
from core import Raw
from pool import pmap

FAMS = ['aam/WibergInverseCompositional', 'aam_patch/SimultaneousForwardCompositional', 'atm/InverseCompositional',
        'clm/RegularisedLandmarkMeanShift', 'aps/Inverse', 'unified/AlternatingRegularisedLandmarkMeanShift']
MORE = ['aam_linear/AlternatingInverseCompositional', 'aam_masked/ProjectOutForwardCompositional',
        'aam_linmasked/SimultaneousInverseCompositional', 'atm_patch/ForwardCompositional',
        'atm_linear/ForwardCompositional', 'atm_masked/InverseCompositional', 'clm/ActiveShapeModel', 'aps/Forward',
        'unified/ProjectOutRegularisedLandmarkMeanShift', 'sdaam/ProjectOutNewton']
SC = {1: (1.0,), 2: (0.5, 1.0), 3: (0.35, 0.6, 1.0)}


def fresh(name, scales):
    import zoo
    return copy.deepcopy(zoo.model(name.split('/')[0] if not name.startswith('sdaam') else 'aam', scales))


def build(name, model, **kw):
    import zoo
    fam, alg = name.split('/')
    if fam in zoo.AAM_MODELS:
        from menpofit import aam
        return aam.LucasKanadeAAMFitter(model, getattr(aam, alg), **kw)
    if fam in zoo.ATM_MODELS:
        from menpofit import atm
        return atm.LucasKanadeATMFitter(model, getattr(atm, alg), **kw)
    if fam == 'clm':
        from menpofit import clm
        return clm.GradientDescentCLMFitter(model, getattr(clm, alg), **kw)
    if fam == 'aps':
        from menpofit import aps
        return aps.GaussNewtonAPSFitter(model, getattr(aps, alg), **kw)
    if fam == 'unified':
        from menpofit import unified_aam_clm as u
        return u.UnifiedAAMCLMFitter(model, getattr(u, alg), **kw)
    from menpofit import aam
    np.random.seed(4)
    return aam.SupervisedDescentAAMFitter(zoo.train_images()[:4], model, group='PTS', n_iterations=[1] * model.n_scales, n_perturbations=2,
                                          sd_algorithm_cls=getattr(aam, alg), **kw)


def has_app(name):
    return name.split('/')[0] in ('aam', 'aam_patch', 'aam_masked', 'aam_linear', 'aam_linmasked', 'unified', 'sdaam')


def pca(m):
    return m.model if hasattr(m, 'model') else m


def spectrum(m):
    """Cumulative shares of variance in millionths."""
    e = pca(m)
    keep = e.n_active_components
    e.n_active_components = e.n_components
    eig = np.array(e.eigenvalues)
    total = e.original_variance()
    e.n_active_components = keep
    return np.cumsum(eig) / total * 1e6


def value(it):
    k, v = it['kind'], it['v']
    return None if k == 'none' else v if k == 'int' else v / 1e6 if k == 'frac' else BAD[v]


BAD = {1: 'two', 2: [1, 2], 3: (1.,)}


def request(rq, spell=0):
    items = [value(i) for i in rq['items']]
    if rq['form'] == 'atom':
        return items[0]
    return tuple(items) if spell % 2 else items


def comps(arg):
    name, scales, log = arg
    model = fresh(name, scales)
    bad = []
    for k, step in enumerate(log):
        kw = dict(n_shape=request(step['shape'], k))
        if has_app(name):
            kw['n_appearance'] = request(step['app'], k + 1)
        keep = repr(kw)
        f = None
        try:
            f = build(name, model, **kw)
        except ValueError:
            pass
        case = (name, len(scales), k, keep)
        if (f is not None) != step['ok']:
            bad.append(('accepted' if f is not None else 'rejected', case))
        if repr(kw) != keep:
            bad.append(('request-changed', case))
        ns = [m.n_active_components for m in model.shape_models]
        if ns != step['nshape']:
            bad.append(('shape-components', (case, ns, step['nshape'])))
        na = None
        if has_app(name):
            na = [m.n_active_components for m in model.appearance_models]
            if na != step['napp']:
                bad.append(('appearance-components', (case, na, step['napp'])))
        if f is not None and not bad:
            bad += derived(name, f, ns, na, case)
        if bad:
            break
    return bad


def derived(name, f, ns, na, case):
    """Everything the optimisers derive from the counts."""
    import zoo
    bad = []
    for j, a in enumerate(f.algorithms):
        t = a.transform
        if t.n_parameters != 4 + ns[j] or len(t.as_vector()) != 4 + ns[j]:
            bad.append(('n-parameters', (case, j, t.n_parameters)))
        it = getattr(a, 'interface', None)
        if it is not None and getattr(it, 'n', 4 + ns[j]) != 4 + ns[j]:
            bad.append(('interface-n', (case, j)))
        if na is not None:
            if it is not None and getattr(it, 'm', na[j]) != na[j]:
                bad.append(('interface-m', (case, j)))
            if hasattr(a, 'A_m') and a.A_m.shape != (len(it.i_mask), na[j]):
                bad.append(('masked-appearance', (case, j, a.A_m.shape)))
        if it is not None and hasattr(a, 'a_bar_m') and len(a.a_bar_m) != len(it.i_mask):
            bad.append(('masked-mean', (case, j)))
    im = zoo.test_images()[0]
    r = f.fit_from_shape(im, zoo.start_shape(im), max_iters=[1] * len(ns))
    want = [4 + n for n in ns for _ in range(2)]
    got = [len(p) for p in r.shape_parameters]
    if got != want:
        bad.append(('fitted-shape-parameters', (case, got, want)))
    ap = getattr(r, 'appearance_parameters', None)
    if ap is not None:
        # one or two states per scale, whatever the algorithm records
        got = [len(p) for p in ap]
        if any(g not in na for g in got) or [g for i, g in enumerate(got) if i == 0 or got[i - 1] != g] != \
                [g for i, g in enumerate(na) if i == 0 or na[i - 1] != g]:
            bad.append(('fitted-appearance-parameters', (case, got, na)))
    return bad


# -------------------------------------------------------------------- masks --
class ToyTransform(object):
    def __init__(self, dw):
        self.dw = dw
        self.n_parameters = dw.shape[1]

    def d_dp(self, points):
        return self.dw


def grad(d, ch, px):
    return ((d * 5 + ch * 3 + px * 7) % 11) - 4


def jac(d, px, k):
    return ((d * 7 + px * 2 + k * 3) % 9) - 3


K = 3


def spellings(s, n, sel, shape=None):
    """The caller's ways of asking for this sampling."""
    b = np.zeros(n, bool)
    b[sel] = True
    if shape is not None:
        b = b.reshape(shape)
    out = [b]
    if s['kind'] == 'none':
        out.append(None)
    if s['kind'] == 'step':
        out += [s['v'], np.int64(s['v'])]
    if shape is None:
        out.append(np.array(sel, dtype=int))
    return out


class Model(object):
    def __init__(self, mean):
        self._mean = mean

    def mean(self):
        return self._mean


class Aam(object):
    def __init__(self, mean, other):
        self.appearance_models = [Model(mean), Model(other)]


def frame(c):
    """The masks made from a reference frame."""
    from menpo.image import MaskedImage
    from menpo.shape import PointCloud
    from menpofit.aam import holistic_sampling_from_step, holistic_sampling_from_scale
    # (reference frames have a margin around their landmarks)
    d, cells = c['dims'], np.array(c['cells']) + 3
    m = np.zeros((d['h'] + 6, d['w'] + 6), bool)
    m[cells[:, 0], cells[:, 1]] = True
    im = MaskedImage(np.zeros((2,) + m.shape), mask=m)
    im.landmarks['source'] = PointCloud(np.array([[0, 0], [0, d['w'] - 1], [d['h'] - 1, d['w'] - 1], [d['h'] - 1, 0]]) + 3.)
    aam = Aam(im, MaskedImage(np.zeros((1, 3, 4))))
    pos, pic = holistic_sampling_from_step(aam, step=c['step'])
    want = np.zeros(m.shape, bool)
    for y, x in c['picked']:
        want[y + 3, x + 3] = True

    def numbers(p):
        p = np.asarray(p)
        return list(np.nonzero(p)[0]) if p.dtype == bool else list(p)
    if numbers(pos) != c['kept']:
        yield 'step-positions', (c['dims'], c['step'], numbers(pos), c['kept'])
    if not np.array_equal(pic.mask, want):
        yield 'step-picture', (c['dims'], c['step'])
    if not np.array_equal(im.mask.mask, m):
        yield 'frame-changed', c
    # the same by the scale of a smaller frame
    for s in (1. / c['step'], 1. - .07 * c['step'], 1. + .3 * (c['step'] - 1)):
        if s * min(d['h'], d['w']) < 2:
            continue
        pos, pic = holistic_sampling_from_scale(aam, scale=s)
        p = numbers(pos)
        # both tell of the same pixels
        if p != list(np.nonzero(pic.mask[m])[0]):
            yield 'scale-positions', (c['dims'], s, p)
        if s >= 1 and len(p) != len(cells):
            yield 'scale-all', (c['dims'], s, len(p), len(cells))
        if s < 1 and not d['hole'] and not d['cut']:
            # spread over the whole frame, about as densely as asked for
            q = cells[p]
            far = np.abs(cells[:, None] - q[None]).max(2).min(1).max()
            if far > np.ceil(1 / s) or not .3 < len(p) / (s * s * len(cells)) < 2.5:
                yield 'scale-spread', (c['dims'], s, float(far), len(p), len(cells))
        if not np.array_equal(im.mask.mask, m):
            yield 'frame-changed', c


def mask(c):
    if c['world'] == 'frame':
        for x in frame(c):
            yield x
        return
    from menpo.image import Image, MaskedImage
    d, want = c['dims'], np.array(c['mask'])
    sd = np.array(c['sd'], float).reshape(-1, K)
    n = d['n']
    full = None
    if c['world'] == 'holistic':
        from menpofit.aam.algorithm.lk import LucasKanadeStandardInterface, LucasKanadeLinearInterface
        from menpofit.atm.algorithm import ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface
        m = np.zeros((4, n), bool)
        m[np.arange(n) % 4, np.arange(n)] = True
        m = MaskedImage(np.zeros((d['ch'], 4, n)), mask=m)
        dw = np.array([[[jac(e, p, k) for e in range(2)] for k in range(K)] for p in range(n)], float)
        nabla = np.array([[[grad(e, ch, p) for p in range(n)] for ch in range(d['ch'])] for e in range(2)], float)
        for sp in spellings(c['s'], n, c['sel']):
            keep = copy.deepcopy(sp)
            for cls in (LucasKanadeStandardInterface, LucasKanadeLinearInterface,
                        ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface):
                t = ToyTransform(dw)
                i = (cls(None, t, m, sampling=sp) if 'ATM' not in cls.__name__ else cls(t, m, sampling=sp))
                if not np.array_equal(i.i_mask, want):
                    yield 'sampled-entries', (cls.__name__, c['dims'], c['s'], str(sp), list(i.i_mask), list(want))
                    continue
                got = i.steepest_descent_images(nabla.copy(), i.warp_jacobian())
                if got.shape != sd.shape or not np.array_equal(got, sd):
                    yield 'steepest-descent', (cls.__name__, c['dims'], c['s'], str(sp))
                if not np.array_equal(keep, sp):
                    yield 'sampling-changed', c
    else:
        from menpofit.aam.algorithm.lk import LucasKanadePatchInterface
        from menpofit.atm.algorithm import ATMLucasKanadePatchInterface
        from menpofit.aps.algorithm.gn import GaussNewtonBaseInterface
        from menpo.feature import no_op
        ps = (d['h'], n // d['h'])
        px = np.zeros((d['parts'], d['off'], d['ch']) + ps)
        t = Image(px, copy=False)
        dw = np.array([[[jac(e, p, k) for e in range(2)] for k in range(K)] for p in range(d['parts'])], float)
        nabla = np.array([[[[grad(e, p + 2 * oc, x) for x in range(n)] for oc in range(d['off'] * d['ch'])]
                           for p in range(d['parts'])] for e in range(2)], float).reshape((2,) + px.shape)
        for sp in spellings(c['s'], n, c['sel'], ps):
            for cls in (LucasKanadePatchInterface, ATMLucasKanadePatchInterface, GaussNewtonBaseInterface):
                tr = ToyTransform(dw)
                if cls is LucasKanadePatchInterface:
                    i = cls(None, tr, t, sampling=sp, patch_shape=ps)
                elif cls is ATMLucasKanadePatchInterface:
                    i = cls(tr, t, sampling=sp, patch_shape=ps)
                else:
                    i = cls(None, None, tr, 1., True, t, sp, ps, no_op)
                if not np.array_equal(i.i_mask, want):
                    yield 'sampled-entries', (cls.__name__, c['dims'], c['s'], str(sp), list(i.i_mask), list(want))
                    continue
                J = i.ds_dp() if cls is GaussNewtonBaseInterface else i.warp_jacobian()
                got = i.steepest_descent_images(nabla.copy(), J)
                if got.shape != sd.shape or not np.array_equal(got, sd):
                    yield 'steepest-descent', (cls.__name__, c['dims'], c['s'], str(sp))


def sampled_fit(arg):
    """In real fitters a mask is used at its own scale only, sampling everything
    is no sampling, and residuals are the sampled entries of the full ones."""
    import zoo
    name, _ = arg
    bad = []
    scales = SC[2]
    im = zoo.test_images()[1]
    st = zoo.start_shape(im)
    base = build(name, fresh(name, scales))
    full = [a.interface.i_mask for a in base.algorithms]
    patch = 'patch' in name or name.startswith('aps')
    ref = base.fit_from_shape(im, st, max_iters=[2, 2], return_costs=True)

    def everything(j):
        it = base.algorithms[j].interface
        return np.ones(it.patch_shape, bool) if patch else np.ones(it.template.n_true_pixels(), bool)
    for sp in (1, [None, 1], [1], [everything(0), everything(1)], None, (None,)):
        f = build(name, fresh(name, scales), sampling=sp)
        r = f.fit_from_shape(im, st, max_iters=[2, 2], return_costs=True)
        if not np.allclose([s.points for s in r.shapes], [s.points for s in ref.shapes], atol=1e-9):
            bad.append(('everything-sampled', (name, str(sp))))
        if (r.costs is None) != (ref.costs is None) or (ref.costs is not None and not np.allclose(r.costs, ref.costs, rtol=1e-6, atol=1e-9)):
            bad.append(('everything-sampled-costs', (name, str(sp))))
    for sp, steps in ((3, (3, 3)), ([2, 5], (2, 5)), ([None, 4], (1, 4)), ([3, None], (3, 1))):
        f = build(name, fresh(name, scales), sampling=sp)
        for j, a in enumerate(f.algorithms):
            it = a.interface
            n = int(np.prod(it.patch_shape)) if patch else it.template.n_true_pixels()
            blocks = len(full[j]) // n
            want = (np.arange(blocks)[:, None] * n + np.arange(0, n, steps[j])).ravel()
            if not np.array_equal(it.i_mask, want):
                bad.append(('mask-per-scale', (name, str(sp), j)))
            if hasattr(a, 'a_bar_m') and not np.allclose(a.a_bar_m, base.algorithms[j].a_bar_m[want]):
                bad.append(('masked-mean', (name, str(sp), j)))
            if hasattr(a, 'A_m') and not np.allclose(a.A_m, base.algorithms[j].A_m[want]):
                bad.append(('masked-appearance', (name, str(sp), j)))
            if hasattr(a, 't_m') and not np.allclose(a.t_m, base.algorithms[j].t_m[want]):
                bad.append(('masked-template', (name, str(sp), j)))
            for q in ('Q_a',):
                if hasattr(a, q):
                    X, Y = getattr(a, q), getattr(base.algorithms[j], q)
                    X, Y = [m.toarray() if hasattr(m, 'toarray') else np.asarray(m) for m in (X, Y)]
                    if not np.allclose(X, Y[np.ix_(want, want)]):
                        bad.append(('masked-precision', (name, str(sp), j)))
        # the residual seen while fitting
        r = f.fit_from_shape(im, st, max_iters=[1, 1])
        r2 = f.fit_from_shape(im, st, max_iters=[1, 1], return_costs=True)
        if not np.allclose([s.points for s in r.shapes], [s.points for s in r2.shapes], atol=1e-9):
            bad.append(('asking-for-costs', (name, str(sp))))
        if ref.costs is not None and (len(r2.costs) != 4 or not np.all(np.isfinite(r2.costs))):
            bad.append(('costs-of-samples', (name, str(sp), r2.costs)))
        for j, a in enumerate(f.algorithms):
            if hasattr(a, 'e_m') and np.size(a.e_m) != len(a.interface.i_mask):
                bad.append(('residual-size', (name, str(sp), j, np.size(a.e_m))))
    # requests that cannot be met change nothing
    m = fresh(name, scales)
    before = [x.n_active_components for x in m.shape_models]
    for sp in ('all', [1, 2, 3], 0.5, ['x', None]):
        try:
            build(name, m, n_shape=1, sampling=sp)
            bad.append(('accepts-sampling', (name, sp)))
        except ValueError:
            pass
        if [x.n_active_components for x in m.shape_models] != before:
            bad.append(('models-changed', (name, sp)))
    return bad


# --------------------------------------------------------------------- run --
def fractions(specs):
    cum = sorted(v for s in specs for v in s)
    out = []
    edges = [0.] + cum
    gaps = [(b - a, a, b) for a, b in zip(edges, edges[1:]) if b - a > 2000]
    gaps.sort(reverse=True)
    for _, a, b in gaps[:4]:
        out.append(int((a + b) / 2))
    kept = max(cum)
    if kept < 999000:
        out.append(int((kept + 1e6) / 2))
    return out + [1300000, -200000]


def explore(ctx, name, n, rng):
    from core import _tla
    scales = SC[n]
    model = fresh(name, scales)
    sh = [[int(round(v)) for v in spectrum(m)] for m in model.shape_models]
    ap = [[int(round(v)) for v in spectrum(m)] for m in model.appearance_models] if has_app(name) else []
    fr = fractions(sh + ap)
    it = lambda k, v=0: dict(kind=k, v=v)
    none, bads = it('none'), [it('bad', 1), it('bad', 2)]
    ints = [it('int', v) for v in (1, 2, 3, 9)]
    nots = [it('int', 0), it('int', -1)]
    fracs = [it('frac', v) for v in fr]
    al = [none] + ints + nots + fracs + bads
    rq = [dict(form='atom', items=[a]) for a in al if a != it('bad', 2)]
    rq += [dict(form='list', items=[a]) for a in al]
    rq += [dict(form='list', items=list(x)) for x in ([ints[0]] * (n + 1), [none] * (n + 1)) if n + 1 != 1]
    if n > 1:
        for _ in range(ctx.pick(25, 90)):
            # mostly good entries, at times a bad one at any scale
            items = [al[rng.randint(len(al))] if rng.rand() < .25 else
                     ([none] + ints + fracs[:4])[rng.randint(5 + len(fracs[:4]))] for _ in range(n)]
            rq.append(dict(form='list', items=items))
    if has_app(name):
        rq = [rq[i] for i in sorted(rng.choice(len(rq), min(len(rq), ctx.pick(14, 22)), replace=False))]
    uniq = Raw('{' + ', '.join(sorted(set(_tla(r) for r in rq))) + '}')
    small = Raw('{' + ', '.join(sorted(set(_tla(rq[i]) for i in rng.choice(len(rq), min(len(rq), 6), replace=False)))) + '}')
    base = dict(Mode='comps', Shape=sh, App=ap, Holistic=Raw('{}'), Patch=Raw('{}'), Params=K, Frames=Raw('{}'))
    out = []
    for reqs, steps in ((uniq, 1), (small, 2)):
        cs = ctx.tlc('Counts', dict(base, Requests=reqs, Steps=steps),
                     invariants=['InRange', 'Smallest', 'Untouched', 'Emit']).cases
        lim = ctx.pick(36, 300)
        if len(cs) > lim:
            # as many accepted as rejected histories
            good = [c for c in cs if all(s['ok'] for s in c)]
            rest = [c for c in cs if not all(s['ok'] for s in c)]
            pick = lambda x, k: [x[i] for i in sorted(rng.choice(len(x), min(k, len(x)), replace=False))]
            cs = pick(good, lim // 2) + pick(rest, lim // 2)
        out += [(name, scales, c) for c in cs]
    return out


def run(ctx):
    rng = np.random.RandomState(ctx.seed)
    mc = ctx.tlc('Counts', dict(Mode='mask', Shape=[], App=[], Requests=Raw('{}'), Steps=0, Params=K,
                                Frames=Raw(ctx.pick('[h : {5, 11}, w : {7, 12}, cut : {0, 3}, hole : BOOLEAN]', '[h : {5, 9, 11, 16}, w : {7, 10, 12, 19}, cut : {0, 2, 3}, hole : BOOLEAN]')),
                                Holistic=Raw('{[n |-> n, ch |-> ch] : n \\in {1, 2, 7, %s}, ch \\in 1..3}' % ctx.pick('12', '12, 25')),
                                Patch=Raw('{[parts |-> p, off |-> o, ch |-> ch, h |-> hw[1], n |-> hw[2]] : p \\in {1, 3}, '
                                          'o \\in 1..2, ch \\in 1..2, hw \\in {<<3, 9>>, <<2, 6>>, <<5, 15>>}}')),
                 invariants=['Rows', 'Spaced', 'Emit']).cases
    ctx.replay('mask', mc, mask)
    fams = FAMS + ctx.pick([], MORE)
    jobs = []
    for k, name in enumerate(fams):
        for n in ctx.pick((2, 3) if k % 2 else (2, 1), (1, 2, 3)):
            jobs += explore(ctx, name, n, rng)
    res = dict(zip(range(len(jobs)), pmap(comps, jobs, workers=8, chunk=4)))

    def verdict(i):
        k, r = res[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('comps', range(len(jobs)), verdict, sample=0)
    for j in jobs[:3]:
        ctx.sample('comps', dict(family=j[0], scales=j[1], log=j[2]))
    sf = ['aam/ProjectOutInverseCompositional', 'aam_patch/SimultaneousForwardCompositional', 'atm/ForwardCompositional',
          'atm_patch/InverseCompositional', 'aps/Inverse', 'aam_linear/AlternatingForwardCompositional'] + ctx.pick(
        [], ['aps/Forward', 'aam_masked/WibergInverseCompositional', 'atm_linmasked/InverseCompositional',
             'unified/AlternatingRegularisedLandmarkMeanShift', 'unified/ProjectOutRegularisedLandmarkMeanShift',
             'aam/SimultaneousInverseCompositional', 'aam/ModifiedAlternatingForwardCompositional'])
    out = pmap(sampled_fit, [(s, 0) for s in sf], workers=8)
    res2 = dict(zip(sf, out))

    def verdict2(i):
        k, r = res2[i]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('sampling', sf, verdict2)
