"""P17 - multi-scale parameters are normalised or rejected.

Spelling.tla enumerates spellings with their normal form or rejection; each is
handed to the validator, and a part of them to the constructors of every model
and fitter that takes the parameter."""
import functools
import numpy as np
import zoo
from pool import pmap

IDS = {}


def fn1(x):
    return x


def fn2(x):
    return x


class Cls(object):
    pass


class Sub(Cls):
    pass


@functools.lru_cache(None)
def tokens():
    from menpo.shape import UndirectedGraph, DirectedGraph, Tree
    e = np.array([[0, 1], [1, 2]])
    return dict(f05=0.5, i1=1, str='abc', none=None, fn1=fn1, fn2=fn2, pairA=(5, 7), pairB=[7, 9],
                i5=5, i7=7, i3=3, i0=0, im1=-1, f0=0.0, f1=1.0, f15=1.5, fm1=-0.25, i2=2,
                arr=np.ones((3, 3), dtype=bool), ugraph=UndirectedGraph.init_from_edges(e, 3),
                dgraph=DirectedGraph.init_from_edges(e, 3), tree=Tree.init_from_edges(e, 3, 0),
                cls=Cls, sub=Sub, partial=functools.partial(Sub), other=int)


def value(case, tok=None):
    tok = tok or tokens()
    xs = [tok[t] for t in case['items']]
    return {'atom': lambda: xs[0], 'list': lambda: xs, 'tuple': lambda: tuple(xs)}[case['kind']]()


def call(v, x, n):
    from menpofit import checks
    from menpo.shape import UndirectedGraph, DirectedGraph, Tree
    return {
        'scales': lambda: checks.check_scales(x),
        'multi': lambda: checks.check_multi_scale_param(n, (int, float), 'p', x),
        'callable': lambda: checks.check_callable(x, n),
        'patch': lambda: checks.check_patch_shape(x, n),
        'comps': lambda: checks.check_max_components(x, n, 'm'),
        'iters': lambda: checks.check_max_iters(x, n),
        'sampling': lambda: checks.check_sampling(x, n),
        'ugraph': lambda: checks.check_graph(x, UndirectedGraph, 'g', n),
        'dgraph': lambda: checks.check_graph(x, [DirectedGraph, Tree], 'g', n),
        'cls': lambda: checks.check_algorithm_cls(x, n, Cls),
    }[v]()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return False
    if type(a) in (int, float, str) or isinstance(a, (list, tuple)):
        return type(a) == type(b) and a == b
    return False


def shares(total, n):
    """The nearest integers to an equal share."""
    q, r = divmod(total, n)
    if 2 * r < n:
        return {q}
    if 2 * r > n:
        return {q + 1}
    return {q, q + 1}


def validator(c):
    x = value(c)
    before = list(x) if isinstance(x, (list, tuple)) else None
    try:
        out = call(c['v'], x, c['n'])
    except ValueError:
        if c['ok']:
            yield c['v'] + '-rejected', 'valid spelling %r rejected for %d scales' % (c, c['n'])
        return
    except Exception as e:
        yield c['v'] + '-raises', '%r -> %s: %s' % (c, type(e).__name__, e)
        return
    if not c['ok']:
        yield c['v'] + '-accepted', 'spelling %r accepted as %r' % (c, out)
        return
    if before is not None and (len(before) != len(x) or not all(a is b for a, b in zip(before, x))):
        yield c['v'] + '-argument-changed', repr(c)
    if out is x:
        yield c['v'] + '-aliases-argument', repr(c)
    if c['v'] != 'iters' and not isinstance(out, list):
        yield c['v'] + '-not-a-list', '%r -> %r' % (c, type(out))
    if len(out) != len(c['out']):
        yield c['v'] + '-length', '%r -> %r' % (c, out)
        return
    tok = tokens()
    for o, t in zip(out, c['out']):
        if c['shared']:
            if int(o) not in shares(tok[c['items'][0]], c['n']) or int(o) != o:
                yield c['v'] + '-share', '%r -> %r' % (c, out)
        elif c['v'] == 'iters':
            if int(o) != tok[t]:
                yield c['v'] + '-entry', '%r -> %r' % (c, out)
        elif t == 'self':
            if tuple(o) != tuple(x):
                yield c['v'] + '-entry', '%r -> %r' % (c, out)
        elif not same(o, tok[t]):
            yield c['v'] + '-entry', '%r -> %r' % (c, out)


# ---------------------------------------------------------- constructors --
def feat1(x):
    return x


def feat2(x):
    return x


feat1.__name__ = 'feat1'


@functools.lru_cache(None)
def real_tokens():
    """Concrete values usable in actual training."""
    from menpo.shape import UndirectedGraph, DirectedGraph, Tree
    from menpo.feature import no_op, igo
    t = dict(tokens())
    e = np.array([[i, i + 1] for i in range(8)])
    t.update(fn1=no_op, fn2=feat2, f05=0.5, i1=1,
             ugraph=UndirectedGraph.init_from_edges(e, 9),
             dgraph=DirectedGraph.init_from_edges(np.array([[0, i] for i in range(1, 9)]), 9),
             tree=Tree.init_from_edges(np.array([[0, i] for i in range(1, 9)]), 9, 0),
             arr=np.ones((5, 7), dtype=bool))
    return t


def builders():
    """constructor name -> (function(scales, value), attribute reader, validator)"""
    from menpofit import aam, atm, lk, sdm, aps, clm, unified_aam_clm, dlib
    D = 40
    out = {}

    def add(name, v, make, read):
        out[name] = (v, make, read)
    ims = lambda: zoo.train_images(n=4)
    small = dict(diagonal=D)

    def A(cls, **fixed):
        def mk(sc, **kw):
            kk = dict(fixed)
            kk.update(kw)
            return cls(ims(), group='PTS', scales=sc, diagonal=D, **kk)
        return mk

    def T(cls, **fixed):
        def mk(sc, **kw):
            kk = dict(fixed)
            kk.update(kw)
            i = ims()
            return cls(i[0], [x.landmarks['PTS'] for x in i], group='PTS', scales=sc, diagonal=D, **kk)
        return mk
    P = dict(patch_shape=(5, 5))
    for nm, mk in (('HolisticAAM', A(aam.HolisticAAM)), ('PatchAAM', A(aam.PatchAAM, **P)),
                   ('MaskedAAM', A(aam.MaskedAAM, **P)), ('LinearMaskedAAM', A(aam.LinearMaskedAAM, **P)),
                   ('LinearAAM', A(aam.LinearAAM))):
        add(nm + '.max_shape_components', 'comps', mk, lambda m: m.max_shape_components)
        add(nm + '.max_appearance_components', 'comps', mk, lambda m: m.max_appearance_components)
        add(nm + '.holistic_features', 'callable', mk, lambda m: m.holistic_features)
    for nm, mk in (('PatchAAM', A(aam.PatchAAM)), ('MaskedAAM', A(aam.MaskedAAM)),
                   ('LinearMaskedAAM', A(aam.LinearMaskedAAM)),
                   ('MaskedATM', T(atm.MaskedATM)), ('PatchATM', T(atm.PatchATM)),
                   ('LinearMaskedATM', T(atm.LinearMaskedATM))):
        add(nm + '.patch_shape', 'patch', mk, lambda m: m.patch_shape)
    for nm, mk in (('HolisticATM', T(atm.HolisticATM)), ('PatchATM', T(atm.PatchATM, **P)),
                   ('LinearATM', T(atm.LinearATM))):
        add(nm + '.max_shape_components', 'comps', mk, lambda m: m.max_shape_components)
        add(nm + '.holistic_features', 'callable', mk, lambda m: m.holistic_features)
    C = A(clm.CLM, patch_shape=(5, 5), context_shape=(9, 9))
    add('CLM.patch_shape', 'patch', A(clm.CLM, context_shape=(11, 11)), lambda m: m.patch_shape)
    add('CLM.context_shape', 'patch', A(clm.CLM, patch_shape=(5, 5)), lambda m: m.context_shape)
    add('CLM.max_shape_components', 'comps', C, lambda m: m.max_shape_components)
    add('CLM.holistic_features', 'callable', C, lambda m: m.holistic_features)
    U = A(unified_aam_clm.UnifiedAAMCLM, patch_shape=(5, 5), context_shape=(9, 9))
    add('UnifiedAAMCLM.max_shape_components', 'comps', U, lambda m: m.max_shape_components)
    add('UnifiedAAMCLM.max_appearance_components', 'comps', U, lambda m: m.max_appearance_components)
    add('UnifiedAAMCLM.patch_shape', 'patch',
        A(unified_aam_clm.UnifiedAAMCLM, context_shape=(11, 11)), lambda m: m.patch_shape)
    gr = dict(appearance_graph=real_tokens()['ugraph'], deformation_graph=real_tokens()['tree'])
    G = A(aps.GenerativeAPS, patch_shape=(5, 5), **gr)
    add('GenerativeAPS.patch_shape', 'patch',
        A(aps.GenerativeAPS, **gr), lambda m: m.patch_shape)
    add('GenerativeAPS.max_shape_components', 'comps', G, lambda m: m.max_shape_components)
    add('GenerativeAPS.n_appearance_components', 'comps', G, lambda m: m.n_appearance_components)
    add('GenerativeAPS.appearance_graph', 'ugraph', G, lambda m: m.appearance_graph)
    add('GenerativeAPS.deformation_graph', 'dgraph', G,
        lambda m: m.deformation_graph)

    def S(sc, **kw):
        kk = dict(n_iterations=1, n_perturbations=2, patch_shape=(5, 5))
        kk.update(kw)
        return sdm.SupervisedDescentFitter(ims(), group='PTS', scales=sc, diagonal=D, **kk)
    add('SupervisedDescentFitter.patch_shape', 'patch', S, lambda m: m.patch_shape)
    add('SupervisedDescentFitter.patch_features', 'callable', S, lambda m: m.patch_features)
    add('SupervisedDescentFitter.n_iterations', 'iters', S,
        lambda m: [a.n_iterations for a in m.algorithms])

    def K(sc, **kw):
        return lk.LucasKanadeFitter(zoo.images(tri=False)[0].copy(), group='PTS', scales=sc, diagonal=D, **kw)
    add('LucasKanadeFitter.holistic_features', 'callable', K, lambda m: m.holistic_features)

    def E(sc, **kw):
        kk = dict(n_perturbations=2, n_iterations=1, n_trees=2, n_tree_levels=2, n_pixel_pairs=10,
                  n_split_tests=2)
        kk.update(kw)
        return dlib.DlibERT(ims(), group='PTS', scales=sc, diagonal=D, **kk)
    add('DlibERT.n_iterations', 'iters', E, lambda m: [a.n_iterations for a in m.algorithms])

    def weight(sc, **kw):
        return aps.GaussNewtonAPSFitter(zoo.model('aps', sc), **kw)
    add('GaussNewtonAPSFitter.weight', 'multi', weight, lambda m: m.weight)

    def samp(sc, **kw):
        return aam.LucasKanadeAAMFitter(zoo.model('aam', sc), **kw)
    add('LucasKanadeAAMFitter.sampling', 'sampling', samp, None)

    def atmsamp(sc, **kw):
        return atm.LucasKanadeATMFitter(zoo.model('atm', sc), **kw)
    add('LucasKanadeATMFitter.sampling', 'sampling', atmsamp, None)
    return out


SC = {1: (1.0,), 2: (0.5, 1.0), 3: (0.5, 0.75, 1.0)}


def construct(job):
    name, c = job
    v, mk, read = builders()[name]
    tok = dict(real_tokens())
    if v == 'sampling':
        tok['arr'] = np.arange(0, 60, 3)
    if v == 'multi':
        tok['i1'] = 2
    x = value(c, tok)
    try:
        m = mk(SC[c['n']], **{name.split('.')[1]: x})
    except ValueError as e:
        return [('rejected', '%s: %r: %s' % (name, c, e))] if c['ok'] else []
    if not c['ok']:
        return [('accepted', '%s: %r' % (name, c))]
    if read is None:
        return []
    out = list(read(m))
    if len(out) != c['n']:
        return [('length', '%s: %r -> %r' % (name, c, out))]
    for o, t in zip(out, c['out']):
        ok = (int(o) in shares(tok[c['items'][0]], c['n']) if c['shared'] else
              int(o) == tok[t] if v == 'iters' else
              tuple(o) == tuple(x if t == 'self' else tok[t]) if v == 'patch' else
              o is tok[t] or (type(o) == type(tok[t]) and isinstance(o, (int, float)) and o == tok[t]))
        if not ok:
            return [('entry', '%s: %r -> %r' % (name, c, out))]
    return []


def trainable(c):
    """Spellings whose values training can also use on four tiny images
    (menpo refuses to keep all or none of the variance after rounding; the
    graph-less appearance model is documented as not implemented)."""
    if not c['ok']:
        return True
    if c['v'] in ('ugraph', 'dgraph') and 'none' in c['items']:
        return False
    return not set(c['items']) & {'f0', 'i0', 'f1'}


# --------------------------------------------------------------- advice given --
class Enough(Exception):
    pass


TRAINERS = dict(
    [(n, dict(batches=True, references=True, warps=w)) for n, w in (
        ('HolisticAAM', 'pieces'), ('MaskedAAM', 'spline'), ('LinearAAM', 'spline'), ('LinearMaskedAAM', 'spline'), ('PatchAAM', 'none'),
        ('HolisticAAM/spline', 'spline'), ('LinearAAM/pieces', 'pieces'),
        ('HolisticATM', 'pieces'), ('MaskedATM', 'spline'), ('LinearATM', 'spline'), ('PatchATM', 'none'), ('HolisticATM/sub', 'pieces'),
        ('CLM', 'none'), ('GenerativeAPS', 'none'))] +
    [('SupervisedDescentFitter', dict(batches=False, references=True, warps='none')),
     ('UnifiedAAMCLM', dict(batches=False, references=False, warps='pieces')),
     ('LucasKanadeFitter', dict(batches=False, references=False, warps='none')),
     ('DlibERT', dict(batches=False, references=False, warps='none'))])


def advice(c):
    import warnings
    from menpofit import aam, atm, lk, sdm, aps, clm, unified_aam_clm, dlib
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA, DifferentiableThinPlateSplines as TPS
    from menpo.shape import TriMesh, PointCloud

    class Own(PWA):
        pass
    name, _, variant = c['who'].partition('/')
    ims = zoo.train_images(n=4)
    base = ims[0].landmarks['PTS'].points
    mesh = TriMesh(base)
    for i in ims:
        p = i.landmarks['PTS'].points
        i.landmarks['PTS'] = TriMesh(p, mesh.trilist) if c['triangles'] else PointCloud(p)
    got = []

    def stop(x, *a, **k):
        got.append(x)
        raise Enough()
    kw = dict(group='PTS', scales=(1.,))
    if name != 'DlibERT':
        kw['patch_features' if name == 'SupervisedDescentFitter' else 'holistic_features'] = stop
    d = c['diagonal']
    if d:
        kw['diagonal'] = d // 10 if d % 10 == 0 and (d // 10) % 2 == 0 else d / 10.
    if c['reference'] == 'given':
        kw['reference_shape'] = mesh
    if c['batched']:
        kw['batch_size'] = 3
    if variant:
        kw['transform'] = dict(spline=TPS, pieces=PWA, sub=Own)[variant]
    if name.startswith('Masked') or name.startswith('Patch') or name in ('LinearMaskedAAM', 'CLM', 'GenerativeAPS', 'UnifiedAAMCLM'):
        kw['patch_shape'] = (5, 5)
    if name == 'GenerativeAPS':
        kw.update(appearance_graph=real_tokens()['ugraph'], deformation_graph=real_tokens()['tree'])
    if name == 'SupervisedDescentFitter':
        kw.update(n_iterations=1, n_perturbations=1, patch_shape=(5, 5))
    if name == 'DlibERT':
        kw.update(n_perturbations=1, n_iterations=1, n_trees=1, n_tree_levels=1, n_pixel_pairs=5, n_split_tests=1)
    refused = False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            if name.endswith('ATM'):
                getattr(atm, name)(ims[0], [x.landmarks['PTS'] for x in ims], **kw)
            elif name == 'LucasKanadeFitter':
                lk.LucasKanadeFitter(ims[0], **kw)
            else:
                mod = next(m for m in (aam, sdm, aps, clm, unified_aam_clm, dlib) if hasattr(m, name))
                getattr(mod, name)(ims, **kw)
        except Enough:
            pass
        except ValueError as e:
            refused = str(e)
    texts = [str(w.message) for w in ws]
    told = dict(batch=[t for t in texts if 'first batch' in t], triangles=[t for t in texts if 'triangulation' in t.lower()])
    if c['refused'] != bool(refused):
        return [('small-reference', '%r: %s' % (c, refused))]
    if c['refused']:
        return [('trained-before-refusal', repr(c))] if got else []
    bad = []
    for k, ts in sorted(told.items()):
        if len(ts) != (k in c['told']):
            bad.append(('%s-warning' % k, '%r: %r' % (c, ts)))
    if not got and name != 'DlibERT':
        bad.append(('not-trained', repr(c)))
    return bad


def run_advice(ctx):
    import json
    from core import Raw
    t = ' @@ '.join('"%s" :> [batches |-> %s, references |-> %s, warps |-> "%s"]' % (
        k, str(v['batches']).upper(), str(v['references']).upper(), v['warps']) for k, v in sorted(TRAINERS.items()))
    cs = ctx.tlc('Advice', dict(Trainers=Raw(t), Diagonals=Raw('{0, 10, 190, 195, 199, 200, 205, 300, 450}')),
                 invariants=['NothingAfterRefusal', 'WithReference', 'Emit']).cases
    rng = np.random.RandomState(ctx.seed + 7)
    if not ctx.thorough:
        cs = [c for c in cs if c['diagonal'] == 0 or rng.rand() < .35]
    for c, (st, r) in zip(cs, pmap(advice, cs, workers=7)):
        ctx.replayed += 1
        ctx.count('advice/' + c['who'])
        ctx.sample('advice', c, 3)
        if st == 'err':
            ctx.fail('advice/raises-' + r[0], c, '%r: %s' % (c, r[1]))
            continue
        for clause, d in r:
            ctx.fail('advice/' + clause, c, d)


def run(ctx):
    run_advice(ctx)
    allv = ['scales', 'multi', 'callable', 'patch', 'comps', 'iters', 'sampling', 'ugraph',
            'dgraph', 'cls']
    invs = ['OnePerScale', 'SingleAccepted', 'ListAccepted', 'SameMeaning', 'Emit']
    narrow = [v for v in allv if v != 'comps']
    cases = ctx.tlc('Spelling', dict(Validators=set(narrow), MaxScales=ctx.pick(3, 4),
                                     MaxLen=ctx.pick(4, 5)), invariants=invs).cases
    cases += ctx.tlc('Spelling', dict(Validators={'comps'}, MaxScales=3, MaxLen=ctx.pick(3, 4)),
                     invariants=invs).cases
    by = {}
    for c in cases:
        by.setdefault(c['v'], []).append(c)
    for v in allv:
        ctx.replay('validator/' + v, by[v], validator)
    # constructors
    rng = np.random.RandomState(ctx.seed)
    jobs = []
    zoo.model('aps', SC[2]), zoo.model('aam', SC[2]), zoo.model('atm', SC[2])
    for name, (v, mk, read) in sorted(builders().items()):
        slow = name.split('.')[0] in ('CLM', 'UnifiedAAMCLM', 'GenerativeAPS')
        fixed2 = mk.__name__ in ('weight', 'samp', 'atmsamp')
        pool_ = [c for c in by[v] if c['n'] in ((2,) if fixed2 else (2, 3))
                 and len(c['items']) <= c['n'] + 1 and trainable(c)]
        good = [c for c in pool_ if c['ok']]
        bad = [c for c in pool_ if not c['ok']]
        # the rejections that matter most: valid entries, wrong number of them
        wrong = [c for c in bad if c['items'] and c['kind'] != 'atom' and
                 all(any(t in g['items'] for g in good) for t in c['items'])]
        single = [c for c in good if len(c['items']) == 1 and c['kind'] != 'atom']
        k = ctx.pick(1 if slow else 2, 6)
        sel = []
        for group, m in ((good, k), (single, 1), (bad, 6), (wrong, 4)):
            if group:
                sel += [group[i] for i in rng.choice(len(group), min(m, len(group)), replace=False)]
        jobs += [(name, c) for c in sel]
    for (name, c), (st, r) in zip(jobs, pmap(construct, jobs, workers=7)):
        ctx.replayed += 1
        ctx.count('constructor/' + name)
        ctx.sample('constructor', dict(name=name, case=c), 4)
        if st == 'err':
            ctx.fail('constructor/raises-' + r[0], dict(name=name, case=c), '%s %r: %s' % (name, c, r[1]))
            continue
        for clause, d in r:
            ctx.fail('constructor/' + clause, dict(name=name, case=c), d)
