"""Families of recorded real fits used by P01, P02 and P03."""
import numpy as np
import zoo
import record

CLAUSES = dict(
    P01={'call-order', 'scale-order', 'start-shape', 'hand-off', 'all-scales-run',
         'n-shapes', 'shape-frame', 'final-shape', 'initial-shape', 'gt-shape',
         'reconstructions', 'incomplete', 'initial-shape-presence', 'gt-presence'},
    P02={'budget-per-scale', 'budget-exceeded', 'continued-after-convergence',
         'stopped-early', 'stage-count', 'incomplete', 'all-scales-run'},
    P03={'scale-n-iters', 'n-shapes', 'n-iters', 'n-iters-per-scale', 'n-shape-parameters',
         'n-appearance-parameters', 'reconstructions', 'n-costs', 'costs-presence',
         'displacements', 'errors', 'to-result', 'result-image', 'state-order',
         'initial-shape-presence', 'gt-presence', 'incomplete', 'return-order',
         'final-shape', 'shape-frame'})


def share(m, n):
    """Budget per scale the real splitter must respect (nearest integer)."""
    if isinstance(m, (list, tuple)):
        if len(m) == n:
            return list(m)
        m = m[0]
    import fractions
    f = fractions.Fraction(int(m), n)
    lo = f.numerator // f.denominator
    return None if (f - lo) * 2 == 1 else [lo if (f - lo) * 2 < 1 else lo + 1] * n


def run(ctx, jobs, prop):
    """jobs: list of dicts(name, scales, ...); validates all the traces and
    reports the clauses that belong to `prop`."""
    traces, meta = [], []
    for j in jobs:
        desc = {k: v for k, v in j.items()}
        try:
            more = dict(n_iterations=j['stages']) if 'stages' in j else {}
            fitter = j.pop('fitter', None) or zoo.make(j['name'], j.get('scales', zoo.SCALES), **more)
            saved = [getattr(a, 'eps', None) for a in fitter.algorithms]
            if j.get('eps') is not None:
                for a in fitter.algorithms:
                    if hasattr(a, 'eps'):
                        a.eps = j['eps']
            im = zoo.test_images()[j.get('im', 0)]
            if zoo.family(j['name']) == 'lk':
                im = zoo.images(tri=False)[j.get('im', 0)]
            gt = zoo.gt_shape(im)
            n = len(fitter.algorithms)
            kw = dict(gt=gt, max_iters=j.get('max_iters'), return_costs=j.get('costs', False))
            fam = zoo.family(j['name'])
            casc = fam in zoo.CASCADE
            if casc:
                kw['caps'] = None
                kw['stages'] = j.get('stages', [1] * n)
                kw['costsok'] = False
            else:
                kw['caps'] = share(j['max_iters'], n)
                kw['costsok'] = fam not in ('clm',)
            if j.get('bb'):
                kw['bb'] = zoo.start_shape(im).bounding_box()
            else:
                kw['start'] = zoo.start_shape(im, j.get('shift', (1.5, -1.0)), j.get('grow', 1.06))
            tr, _ = record.fit_trace(fitter, j['name'], im, **kw)
            traces.append(tr)
            meta.append(desc)
        except Exception as e:
            import traceback
            ctx.fail('trace/raises-%s' % type(e).__name__, desc,
                     '%s: %s\n%s' % (j['name'], e, traceback.format_exc()[-1500:]))
        finally:
            if j.get('eps') is not None:
                for a, s in zip(fitter.algorithms, saved):
                    if s is not None:
                        a.eps = s
    verdicts = ctx.validate('FitTrace', traces, constants=dict(Tol=2),
                            invariants=['TypeInv', 'Emit'], workers=1)
    for tr, v, m in zip(traces, verdicts, meta):
        ctx.replayed += 1
        ctx.count('trace/' + zoo.family(tr['name']))
        ctx.sample('trace/' + zoo.family(tr['name']),
                   dict(job=m, events=len(tr['ev']), head=tr['head']), 1)
        for clause in v['bad']:
            if clause in CLAUSES[prop]:
                ctx.fail('trace/' + clause, dict(job=m, trace=tr),
                         '%s: %s' % (m, clause))
