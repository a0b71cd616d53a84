"""Training sets and models for Pictorial.tla."""
import numpy as np
from core import Raw, _tla

SIZES = [(41, 49), (45, 41), (53, 57)]


def spread(p):
    p = np.array(p)
    return len(p) * (p ** 2).sum() - (p.sum(0) ** 2).sum()


def sets(rng, n):
    """Training sets of shapes that are all of one size."""
    out, probes = [], []
    for k in range(n):
        nv = [3, 4, 5, 5][k % 4]
        ni = [4, 5, 6][k % 3]
        while True:
            base = rng.randint(6, 34, (nv, 2))
            want = spread(base)
            pool = [base]
            for _ in range(3000):
                b = base + rng.randint(-2, 3, base.shape) + rng.randint(-3, 4, 2)
                if spread(b) == want and not any(np.ptp(b - x, axis=0).max() == 0 for x in pool):
                    pool.append(b)
                if len(pool) > ni:
                    break
            gaps = np.linalg.norm(base[:, None] - base[None], axis=-1)[np.triu_indices(nv, 1)]
            if len(pool) > ni and gaps.min() > 4:
                break
        out.append([b.tolist() for b in pool[:ni]])
        # the shape that was left out, and a few others around the mean
        probes.append([pool[ni].tolist(), (base + rng.randint(-3, 4, base.shape)).tolist(), base.tolist()])
    return out, probes


def graphs():
    return [[(1, 2), (2, 3)], [(1, 3), (3, 2)], [(1, 2), (1, 3), (2, 3)], [(1, 2), (1, 3), (3, 4)], [(1, 4), (4, 2), (4, 3), (3, 5)],
            [(2, 1), (3, 1), (4, 3)], [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]]


def cases(ctx):
    rng = np.random.RandomState(ctx.seed)
    s, p = sets(rng, ctx.pick(40, 300))
    g = '{' + ', '.join('{' + ', '.join('<<%d, %d>>' % e for e in g) + '}' for g in graphs()) + '}'
    cs = ctx.tlc('Pictorial', dict(Sets=s, Graphs=Raw(g), Probes=p), invariants=['Cheapest', 'Spans', 'NotNegative', 'Emit'], workers=8).cases
    for c in cs:
        c['set'], c['probes'] = s[c['s'] - 1], p[c['s'] - 1]
        c['edges'] = sorted(tuple(e) for e in c['edges'])
    cs = [c for c in cs if spans(c)]
    return cs


def spans(c):
    """Every landmark has its part in the graph."""
    return set(v for e in c['edges'] for v in e) == set(range(1, len(c['mean']) + 1))


def graph(c):
    from menpo.shape import DirectedGraph, Tree
    if not c['given']:
        return None
    n = len(c['mean'])
    A = np.zeros((n, n))
    for a, b in c['edges']:
        A[a - 1, b - 1] = 1
    kids = [b for _, b in c['edges']]
    if len(kids) == n - 1 and len(set(kids)) == n - 1 and 1 not in kids:
        return Tree(A, 0)
    return DirectedGraph(A)


def build(c, how, ref=None, **kw):
    from menpofit.aps import GenerativeAPS
    from menpo.image import Image
    from menpo.shape import PointCloud, UndirectedGraph
    rng = np.random.RandomState(len(c['edges']) + c['s'])
    ims = []
    for k, p in enumerate(c['set']):
        im = Image(rng.rand(1, *SIZES[k % len(SIZES)]))
        im.landmarks['PTS'] = PointCloud(np.array(p, float))
        ims.append(im)
    n = len(c['mean'])
    ug = UndirectedGraph(np.ones((n, n)) - np.eye(n))
    return GenerativeAPS(ims, group='PTS', patch_shape=(3, 3), appearance_graph=ug, deformation_graph=graph(c),
                         reference_shape=PointCloud(np.array(c['set'][0], float)), n_appearance_components=2, **dict(how, **kw))
