"""P23 - what is drawn and printed is what is there (Pictures.tla, Gallery.tla,
Summary.tla)."""
import re
import numpy as np
from pool import pmap
from core import Raw
from p06 import verdicts
import p03
from p03 import spoint, GT, errs

ASKS = [dict(q='iterations', w=w) for w in ('all', 'first', 'last', 'middle', 'ends', 'backwards', 'odd', 'rest')] + \
       [dict(q='overview', f=f, i=i, g=g) for f, i, g in ((True, True, True), (True, False, True), (False, True, True),
                                                          (True, True, False), (False, False, True))] + \
       [dict(q=q) for q in ('errors', 'displacements', 'costs', 'summary')] + [dict(q='iterations', w='all')]
STATS = [('mean', 'Mean', np.mean), ('max', 'Maximum', np.max), ('median', 'Median', np.median), ('min', 'Minimum', np.min)]
FULL = {'f': 'final', 'i': 'initial', 'g': 'gt'}
COL = dict(Final=(.9, .1, .2), Initial=(.1, .8, .3), Groundtruth=(.2, .3, .7))


def setup():
    import menpo.visualize.viewmatplotlib as vm
    # (its layout hands floats to matplotlib, which no longer takes them)
    o = vm.MatplotlibSubplots._subplot_layout
    if not hasattr(o, 'whole'):
        def layout(self, n):
            return [int(x) for x in o(self, n)]
        layout.whole = True
        vm.MatplotlibSubplots._subplot_layout = layout


def figure(f):
    """Every picture on a figure of its own."""
    import matplotlib.pyplot as plt
    plt.close('all')
    f()
    fig = plt.gcf()
    out = []
    for a in fig.axes:
        leg = a.get_legend()
        out.append(dict(handles=[] if leg is None else list(leg.legend_handles),
                        texts=[(t.get_text(), t.get_position()[::-1]) for t in a.texts],
                        title=a.get_title(), legend=None if leg is None else [t.get_text() for t in leg.get_texts()],
                        # (x, y) as drawn -> (y, x) as kept
                        dots=[(l.get_xydata()[:, ::-1].copy(), l) for l in a.lines],
                        edges=list(a.collections), images=[np.asarray(i.get_array()) for i in a.images],
                        xlabel=a.get_xlabel(), ylabel=a.get_ylabel()))
    plt.close('all')
    return out


def named(text):
    """A legend entry as (name, number)."""
    m = re.match(r'^(\D+?)\s*(\d+)?$', text.strip())
    return (m.group(1).strip(), int(m.group(2) or 0)) if m else (text, None)


def refused(f):
    import matplotlib.pyplot as plt
    try:
        f()
    except ValueError:
        return True
    except Exception as e:
        return type(e).__name__
    finally:
        plt.close('all')
    return False


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol * max(1., np.abs(b).max()))


def drawn(fig, items, img, sub, case, tag, colour=False):
    want = [((i['label'], i['n']), GT if i['token'] == 0 else spoint(i['token'])) for i in items]
    if sub:
        if len(fig) != len(want):
            yield tag + '-number-of-pictures', (case, len(fig), len(want))
            return
        got = [(named(a['title']), d) for a in fig for d in a['dots']]
        if any(len(a['dots']) != 1 for a in fig):
            yield tag + '-shapes-per-picture', (case, [len(a['dots']) for a in fig])
            return
    else:
        if not want:
            if any(a['dots'] for a in fig):
                yield tag + '-unasked-shapes', case
            return
        if len(fig) != 1 or fig[0]['legend'] is None:
            yield tag + '-no-legend', (case, len(fig))
            return
        if len(fig[0]['dots']) != len(want) or len(fig[0]['legend']) != len(want):
            yield tag + '-number-of-shapes', (case, len(fig[0]['dots']), fig[0]['legend'], [w[0] for w in want])
            return
        got = [(named(t), d) for t, d in zip(fig[0]['legend'], fig[0]['dots'])]
    for (n, (p, l)), (wn, wp) in zip(got, want):
        if n != tuple(wn):
            yield tag + '-name', (case, n, wn)
        if not near(p, wp):
            yield tag + '-shape', (case, n, p.tolist(), wp.tolist())
        if colour and wn[0] in COL and not np.allclose(l.get_markerfacecolor()[:3], COL[wn[0]]):
            yield tag + '-colour', (case, n, list(l.get_markerfacecolor()))
    for a in fig:
        if img is None and a['images']:
            yield tag + '-unasked-image', case
        if img is not None and (not a['images'] or not near(a['images'][0].squeeze(), img.pixels[0])):
            yield tag + '-image', (case, len(a['images']))


def picked(w, at):
    """The argument a caller names these positions with."""
    return None if w == 'all' else (int(at[0]) if w in ('first', 'last', 'middle') else [int(i) for i in at])


def pictures(c):
    setup()
    bad = []
    res, _, img, gt = p03.make(c)
    case = dict((k, c[k]) for k in ('kind', 'opt', 'per'))
    snap = None if img is None else img.pixels.copy()
    start = c['per'][0]['start']
    fin = (start + [t for p in c['per'] for t in p['states']])[-1]

    def cost(t):
        return float(t)
    for k, (a, x) in enumerate(zip(ASKS, c['asked'])):
        if x['answer'] == 'none':
            continue
        sub = (k % 3 == 1)
        ri = k % 4 != 3
        show = img if ri else None
        if a['q'] == 'iterations':
            it = picked(a['w'], x['at'])
            kept = list(it) if isinstance(it, list) else it
            fig = figure(lambda: res.view_iterations(iters=it, subplots_enabled=sub, render_image=ri))
            bad += drawn(fig, x['items'], show, sub, (case, a), 'iterations')
            if kept != it:
                bad.append(('request-changed', (case, a)))
        elif a['q'] == 'overview':
            kw = dict(render_final_shape=a['f'], render_initial_shape=a['i'], render_gt_shape=a['g'],
                      final_marker_face_colour=COL['Final'], initial_marker_face_colour=COL['Initial'],
                      gt_marker_face_colour=COL['Groundtruth'])
            fig = figure(lambda: res.view(subplots_enabled=sub, render_image=ri, **kw))
            # (with nothing to draw on an image there is just the image)
            bad += drawn(fig, x['items'], show, sub and len(x['items']) > 0, (case, a), 'overview', True)
        elif a['q'] == 'summary':
            t = str(res)
            num = lambda r: [float(v) for v in re.findall(r + r'\D*?(\d+\.\d+)', t)]
            if not re.search(r'\b%d\b' % len(GT), t.split('\n')[0]):
                bad.append(('summary-points', (case, t)))
            for name, want in (('(?<!Reconstructed )[Ii]nitial error:', x['initial']), ('Reconstructed initial error:', x['rec']), ('Final error:', x['final'])):
                got, want = num(name), [errs(spoint(w)) for w in want]
                if len(got) != len(want) or not np.allclose(got, want, atol=5.1e-5):
                    bad.append(('summary-' + name.split(':')[0].split(')')[-1].replace(' ', '-'), (case, t, want)))
        else:
            plot = getattr(res, 'plot_' + a['q'])
            for arg, word, st in (STATS if a['q'] == 'displacements' else [(None, None, None)]):
                kw = {} if arg is None else dict(stat_type=arg)
                if x['answer'] == 'ValueError':
                    if refused(lambda: plot(**kw)) is not True:
                        bad.append(('curve-of-what-is-not-there', (case, a)))
                    continue
                if a['q'] == 'errors':
                    want = [errs(spoint(u)) for u, _ in x['of']]
                elif a['q'] == 'displacements':
                    want = [st(np.sqrt(((spoint(u) - spoint(v)) ** 2).sum(1))) for u, v in x['of']]
                    if not want:
                        continue
                else:
                    want = [float(t) for t in x['of']]
                    if not want:
                        continue
                fig = figure(lambda: plot(**kw))
                if len(fig) != 1 or len(fig[0]['dots']) != 1:
                    bad.append(('curve-count-' + a['q'], (case, len(fig))))
                    continue
                yx = fig[0]['dots'][0][0]
                if not near(yx[:, 0], want):
                    bad.append(('curve-values-' + a['q'], (case, yx[:, 0].tolist(), want)))
                elif not near(yx[:, 1], np.arange(len(want))):
                    bad.append(('curve-axis-' + a['q'], (case, yx[:, 1].tolist())))
                if word and (word not in fig[0]['ylabel'] or word not in fig[0]['title']):
                    bad.append(('curve-label-' + a['q'], (case, fig[0]['ylabel'], fig[0]['title'])))
            if a['q'] == 'displacements' and refused(lambda: plot(stat_type='sum')) is not True:
                bad.append(('curve-of-unknown-statistic', case))
    # asking changes nothing
    if c['kind'] != 'plain':
        visited = start + [s for p in c['per'] for s in p['states']]
        if not near([s.points for s in res.shapes], [spoint(t) for t in visited]):
            bad.append(('asking-changed-shapes', case))
        for w in ('rubbish', 1.5, (0,)):
            if refused(lambda: res.view_iterations(iters=w)) is not True:
                bad.append(('odd-request-accepted', (case, str(w))))
    if not near(res.final_shape.points, spoint(fin)) or (gt is not None and not near(res.gt_shape.points, GT)):
        bad.append(('asking-changed-shapes', case))
    if img is not None and (not np.array_equal(img.pixels, snap) or not np.array_equal(res.image.pixels, snap) or
                            list(img.landmarks) or list(res.image.landmarks)):
        bad.append(('asking-changed-image', (case, list(res.image.landmarks))))
    return bad


def run_pictures(ctx):
    cs = ctx.tlc('Pictures', dict(Kinds={'plain', 'np', 'par', 'aam'} if not ctx.thorough else {'plain', 'np', 'par', 'aam', 'lk', 'aps', 'unified'},
                                  MaxScales=3, MaxIter=2, Asks=ASKS), spec='Spec2',
                 invariants=['Complete', 'Numbered', 'Reconstructions', 'EmitPictures'], workers=8).cases
    rng = np.random.RandomState(ctx.seed)
    cs.sort(key=lambda c: (c['kind'], c['opt']['n'], sum(len(p['states']) for p in c['per']), str(c['opt']), str(c['per'])))
    lim = ctx.pick(320, 4000)
    if len(cs) > lim:
        # all the small ones of a kind and a choice of the others
        w = np.array([1. / (1 + sum(len(p['states']) for p in c['per'])) ** 2 for c in cs])
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False, p=w / w.sum()))]
    verdicts(ctx, 'pictures', [(c,) for c in cs], pmap(pictures, cs, workers=8, chunk=4))


# ---------------------------------------------------------------- galleries --
VALUES = dict(marker_size=[5, 7, 9, 11], line_width=[1, 2, 3, 4], marker_style=['o', 's', '^', 'd'],
              marker_face_colour=['r', 'g', 'b', 'y'], marker_edge_colour=['k', 'w', 'm', 'c'], line_colour=['y', 'r', 'k', 'b'],
              marker_edge_width=[1., 2., 3., 4.], render_lines=[False, True, False, True], render_markers=[True, False, True, False],
              line_style=['--', '-', ':', '-.'])
STYLES = sorted(VALUES)


PARTS = dict(head=[0, 1], tail=[1, 2, 3])
LINKS = np.array([[0, 1], [1, 2], [2, 3]])


def cloud(g, labelled=False):
    from collections import OrderedDict
    from menpo.shape import PointUndirectedGraph, LabelledPointUndirectedGraph
    p = np.array([[1., 2.], [6., 3.], [4., 9. + g], [2. + g, 11.]]) + g
    if labelled:
        return LabelledPointUndirectedGraph.init_from_indices_mapping(p, LINKS, OrderedDict((k, PARTS[k]) for k in ('head', 'tail')))
    return PointUndirectedGraph.init_from_edges(p, LINKS)


def rgb(c):
    import matplotlib.colors as mc
    return mc.to_rgb(c)


def gallery(c):
    from menpo.image import Image, MaskedImage
    from menpofit.visualize import view_image_multiple_landmarks
    setup()
    bad = []
    kind = MaskedImage if sum(c['shown']) % 2 else Image
    im = kind(np.arange(600.).reshape(1, 20, 30))
    for g in (3, 1, 4, 2):
        im.landmarks['g%d' % g] = cloud(g, c['how']['labels'] != 'none')
    before = dict((k, im.landmarks[k].points.copy()) for k in im.landmarks)
    groups = ['g%d' % g for g in c['shown']]
    kw, kept = {}, {}
    for s in c['styled']:
        v = VALUES[s['s']]
        n = len(groups)
        kw[s['s']] = dict(one=v[0], single=[v[0]], each=v[:n], wrong=v[:n + 1])[s['w']]
        kept[s['s']] = list(kw[s['s']]) if isinstance(kw[s['s']], list) else kw[s['s']]
    h = c['how']
    title = (lambda g: 'name of %s' % g) if h['named'] else (lambda g: g)
    if h['named']:
        # (more names than groups shown)
        kw['subplots_titles'] = dict(('g%d' % g, title('g%d' % g)) for g in (4, 2, 1, 3))

    if h['numbered']:
        kw['render_numbering'] = True
    parts = [['tail'], ['head', 'tail'], ['head']]
    if h['labels'] != 'none':
        kw['with_labels'] = dict(one=['tail'], each=parts[:len(groups)], word='head', wrong=(parts + parts)[:len(groups) + 1])[h['labels']]

    def draw():
        return view_image_multiple_landmarks(im, list(groups), subplots_enabled=h['apart'], render_image=h['image'], **kw)
    if c['answer'] == 'ValueError':
        if refused(draw) is not True:
            bad.append(('wrong-length-accepted', c))
        return bad
    fig = figure(draw)
    for k in list(im.landmarks):
        if not np.array_equal(before.get(k), im.landmarks[k].points):
            bad.append(('picture-changed-image', c))
    for k in kept:
        # (menpo itself extends lists of one colour)
        if kw[k] != kept[k] and 'colour' not in k:
            bad.append(('picture-changed-style', (c, k)))
    if h['labels'] == 'each' and kw['with_labels'] != [['tail'], ['head', 'tail'], ['head']][:len(groups)]:
        bad.append(('picture-changed-style', (c, 'labels')))
    if len(fig) != c['pictures']:
        bad.append(('number-of-pictures', (c, len(fig))))
        return bad
    get = lambda i, s, d: VALUES[s][i['value'][STYLES.index(s)] - 1] if i['value'][STYLES.index(s)] else d
    if any((len(a['images']) > 0) != h['image'] for a in fig):
        bad.append(('image', c))
    dots = [d for a in fig for d in a['dots']]
    edges = [e for a in fig for e in a['edges']]
    texts = [t for a in fig for t in a['texts']]
    seen, notes, nd, ne = [], [], 0, 0
    for i in c['items']:
        q = cloud(i['group']).points
        here = [PARTS[p] for p in i['parts']] or [[0, 1, 2, 3]]
        if get(i, 'render_markers', True) or get(i, 'render_lines', True):
            seen.append(i)
        for idx in here:
            if h['numbered']:
                notes += [(str(n), q[v]) for n, v in enumerate(idx)]
            if get(i, 'render_markers', True):
                if nd >= len(dots):
                    bad.append(('number-of-groups', (c, len(dots))))
                    return bad
                p, l = dots[nd]
                nd += 1
                if not near(p, q[idx]):
                    bad.append(('landmarks', (c, p.tolist(), q[idx].tolist())))
                for s, got, same in (('marker_size', l.get_markersize(), lambda a, b: a == b), ('marker_style', l.get_marker(), lambda a, b: a == b),
                                     ('marker_edge_width', l.get_markeredgewidth(), lambda a, b: a == b),
                                     ('marker_face_colour', l.get_markerfacecolor(), lambda a, b: rgb(a) == rgb(b)),
                                     ('marker_edge_colour', l.get_markeredgecolor(), lambda a, b: rgb(a) == rgb(b))):
                    v = get(i, s, None)
                    if v is not None and not same(v, got):
                        bad.append(('style-' + s, (c, got, v)))
            if get(i, 'render_lines', True):
                if ne >= len(edges):
                    bad.append(('lines-missing', c))
                    return bad
                e = edges[ne]
                ne += 1
                if not near([x[:, ::-1] for x in e.get_segments()], [q[x] for x in LINKS if set(x) <= set(idx)]):
                    bad.append(('lines', (c, [x.tolist() for x in e.get_segments()])))
                v = get(i, 'line_width', None)
                if v is not None and list(e.get_linewidth()) != [v]:
                    bad.append(('style-line_width', (c, list(e.get_linewidth()), v)))
                v = get(i, 'line_colour', None)
                if v is not None and tuple(e.get_colors()[0][:3]) != rgb(v):
                    bad.append(('style-line_colour', (c, e.get_colors().tolist(), v)))
                v = get(i, 'line_style', None)
                if v is not None and (e.get_linestyle()[0][1] is None) != (v == '-'):
                    bad.append(('style-line_style', (c, str(e.get_linestyle()), v)))
    if nd != len(dots):
        bad.append(('number-of-groups', (c, len(dots), nd)))
    if ne != len(edges):
        bad.append(('unasked-lines', (c, len(edges), ne)))
    if len(texts) != len(notes) or any(t != u or not near(x, y) for (t, x), (u, y) in zip(texts, notes)):
        bad.append(('numbers', (c, str(texts)[:300], str(notes)[:300])))
    if h['apart']:
        names = [a['title'] for a in fig]
        if names != [title(g) for g in groups]:
            bad.append(('names', (c, names)))
    else:
        names = fig[0]['legend'] or []
        if names != [title('g%d' % i['group']) for i in seen]:
            bad.append(('names', (c, names)))
        else:
            # what goes by a name looks like what is drawn of the group
            for i, x in zip(seen, fig[0]['handles']):
                marked = str(getattr(x, 'get_marker', lambda: 'None')()) not in ('None', '', ' ')
                if not get(i, 'render_markers', True):
                    v = get(i, 'line_colour', None)
                    if marked or (v and rgb(x.get_color() if hasattr(x, 'get_color') else x.get_colors()[0]) != rgb(v)):
                        bad.append(('name-of-another', (c, i['group'], str(x))))
                elif not marked or (get(i, 'marker_face_colour', None) and
                                                               rgb(x.get_markerfacecolor()) != rgb(get(i, 'marker_face_colour', None))):
                    bad.append(('name-of-another', (c, i['group'], str(x))))
    return bad


def run_gallery(ctx):
    cs = ctx.tlc('Gallery', dict(Groups=4, Styles=STYLES, MaxShown=3, MaxStyled=2), invariants=['Shared', 'Emit'], workers=8).cases
    cs.sort(key=lambda c: (len(c['shown']), len(c['styled']), str(c)))
    rng = np.random.RandomState(ctx.seed + 1)
    lim = ctx.pick(900, 12000)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    verdicts(ctx, 'gallery', [(c,) for c in cs], pmap(gallery, cs, workers=8, chunk=8))


# --------------------------------------------------------------- summaries --
SETTINGS = [dict(shape=3, app=2, patch=(5, 7), iters=1), dict(shape=2, app=3, patch=(7, 7), iters=2), dict(shape=1, app=1, patch=(9, 5), iters=3)]
SUMMARY_SCALES = {1: (1.0,), 2: (0.5, 1.0), 3: (0.25, 0.5, 1.0)}
SUMMARY_KINDS = ['aam', 'aam_masked', 'aam_linear', 'aam_linmasked', 'aam_patch', 'atm', 'atm_masked', 'atm_linear', 'atm_linmasked', 'atm_patch',
                 'clm', 'aps', 'unified', 'sdm', 'sdaam', 'dlib']


def built(c):
    """The model (or None) and the fitter of a case."""
    import zoo
    scales = SUMMARY_SCALES[c['n']]
    diag = 44 if c['diag'] else None
    k, per = c['kind'], c['per']
    ims = zoo.train_images()
    kw = dict(group='PTS', scales=scales, diagonal=diag)
    shape, app = [s['shape'] for s in per], [s['app'] for s in per]
    patch, iters = [tuple(s['patch']) for s in per], [s['iters'] for s in per]
    fit = {}
    for a, how, tot in (('n_shape', c['keepS'], shape), ('n_appearance', c['keepA'], app)):
        if how == 'all':
            fit[a] = 1
        elif how == 'each':
            fit[a] = [min(2, t) if i % 2 == 0 else 1 for i, t in enumerate(tot)]
    if k.startswith('aam') or k == 'sdaam':
        from menpofit import aam
        cls = dict(aam=aam.HolisticAAM, aam_masked=aam.MaskedAAM, aam_linear=aam.LinearAAM, aam_linmasked=aam.LinearMaskedAAM,
                   aam_patch=aam.PatchAAM, sdaam=aam.HolisticAAM)[k]
        if k in ('aam_masked', 'aam_patch', 'aam_linmasked'):
            kw['patch_shape'] = patch
        m = cls(ims, max_shape_components=shape, max_appearance_components=app, **kw)
        if k == 'sdaam':
            np.random.seed(5)
            return m, aam.SupervisedDescentAAMFitter(ims, m, group='PTS', n_iterations=iters, n_perturbations=3)
        return m, aam.LucasKanadeAAMFitter(m, **fit)
    if k.startswith('atm'):
        from menpofit import atm
        cls = dict(atm=atm.HolisticATM, atm_masked=atm.MaskedATM, atm_linear=atm.LinearATM, atm_linmasked=atm.LinearMaskedATM,
                   atm_patch=atm.PatchATM)[k]
        if k in ('atm_masked', 'atm_patch', 'atm_linmasked'):
            kw['patch_shape'] = patch
        m = cls(ims[0], [i.landmarks['PTS'] for i in ims], max_shape_components=shape, **kw)
        return m, atm.LucasKanadeATMFitter(m, **fit)
    if k == 'clm':
        from menpofit import clm
        m = clm.CLM(ims, patch_shape=patch, context_shape=[(p[0] + 6, p[1] + 8) for p in patch], max_shape_components=shape, **kw)
        return m, clm.GradientDescentCLMFitter(m, **fit)
    if k == 'unified':
        from menpofit import unified_aam_clm as u
        m = u.UnifiedAAMCLM(ims, patch_shape=patch, context_shape=[(p[0] + 6, p[1] + 8) for p in patch], max_shape_components=shape,
                            max_appearance_components=app, **kw)
        return m, u.UnifiedAAMCLMFitter(m, **fit)
    if k == 'aps':
        from menpofit import aps
        g0 = zoo.model('aps')
        m = aps.GenerativeAPS(ims, patch_shape=patch, appearance_graph=g0.appearance_graph[0], deformation_graph=g0.deformation_graph[0],
                              max_shape_components=shape, n_appearance_components=2, **kw)
        return m, aps.GaussNewtonAPSFitter(m, **fit)
    np.random.seed(5)
    if k == 'sdm':
        from menpofit import sdm
        return None, sdm.SupervisedDescentFitter(ims, patch_shape=patch, n_iterations=iters, n_perturbations=3, **kw)
    from menpofit.dlib import DlibERT
    return None, DlibERT(ims, n_perturbations=3, n_iterations=iters, n_trees=5, n_tree_levels=2, n_pixel_pairs=30, n_split_tests=4, **kw)


def sections(text):
    """(head, the sections of the scales) of every list of scales printed."""
    parts = re.split(r'(?im)^.*\bscales:.*$', text)
    out = []
    for p in parts[1:]:
        # (what follows the last section of one list heads the next)
        s = re.split(r'(?im)^\W*scale\s+([\d.]+)\W*$', p)
        out.append([(float(a), b) for a, b in zip(s[1::2], s[2::2])])
    return parts[0], out


def count(section, *words):
    """The numbers stated on the lines that hold all the words."""
    out = []
    for l in section.split('\n'):
        if all(w in l.lower() if not w.startswith('!') else w[1:] not in l.lower() for w in words):
            out.append([float(x) for x in re.findall(r'\d+(?:\.\d+)?', l)])
    return out


def stated(text, want, scales, diag, case, tag):
    head, lists = sections(text)
    if not lists:
        yield tag + '-no-scales', (case, text)
        return
    if not re.search(r'diagonal\D*%.2f\b' % diag, text):
        yield tag + '-diagonal', (case, text.split('\n')[:4], diag)
    for l in lists:
        if [s for s, _ in l] != list(scales):
            yield tag + '-scales', (case, [s for s, _ in l])
            return
    for k in range(len(scales)):
        sec = '\n'.join(l[k][1] for l in lists)
        for what, words, val in want(k):
            got = count(sec, *words)
            if not got or any(g != list(val) for g in got):
                yield tag + '-' + what, (case, k, got, list(val))


def ellipses(m, case):
    """The picture of a deformation model: one ellipse per edge, around the
    mean position of its child, of the spread the model gives the edge."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    for k in list(range(m.n_scales)) + [None]:
        for n_std in (2, 3.5):
            plt.close('all')
            kw = {} if k is None else dict(scale_index=k)
            m.view_deformation_model(n_std=n_std, image_view=False, new_figure=True, **kw)
            i = -1 if k is None else k
            mean, P = m.shape_models[i].model.mean().points, np.asarray(m.deformation_models[i].precision)
            edges = m.deformation_graph[i].edges
            es = plt.gca().patches
            if len(es) != len(edges):
                yield 'deformation-ellipses', (case, k, len(es))
                continue
            for e, (a, b) in zip(es, edges):
                t = np.deg2rad(e.angle)
                R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                got = R.dot(np.diag([e.width ** 2, e.height ** 2])).dot(R.T) / (2. * n_std) ** 2
                want = np.linalg.inv(-P[2 * b:2 * b + 2, 2 * a:2 * a + 2])
                if not np.allclose(e.center, mean[b], atol=1e-8):
                    yield 'deformation-centre', (case, k, [int(a), int(b)], list(map(float, e.center)), mean[b].tolist())
                if not np.allclose(got, want, atol=1e-6 * np.abs(want).max()):
                    yield 'deformation-spread', (case, k, [int(a), int(b)], got.tolist(), want.tolist())
            lines = plt.gca().lines
            seen = {tuple(np.round(p, 6)) for l in lines for p in l.get_xydata()}
            if not {tuple(np.round(p, 6)) for p in mean} <= seen:
                yield 'deformation-points', (case, k)
    plt.close('all')


def parts(m, case):
    """What the parts of a model say of themselves."""
    for k in range(m.n_scales):
        pdm = m.shape_models[k] if hasattr(m, 'shape_models') else None
        if pdm is not None:
            t = str(pdm)
            n, a = int(pdm.model.n_components), int(pdm.n_active_components)
            extra = len(getattr(getattr(pdm, 'similarity_model', None), 'components', []))
            for words, val in ((('features',), [pdm.model.n_features]),
                               (('active components',), [extra, a, extra + a] if extra else [a]),
                               (('total',), [extra + n]),
                               (('components shape',), list(pdm.model.components.shape))):
                if count(t, *words) != [[float(v) for v in val]]:
                    yield 'shape-model-' + words[0].split()[0], (case, k, count(t, *words), val)
            kept = re.search(r'kept variance\D*([\d.e+-]+)\s+([\d.]+)%', t)
            if not kept or abs(float(kept.group(2)) - 100 * pdm.model.variance_ratio()) > .0501 or \
                    abs(float(kept.group(1)) - pdm.model.variance()) > .0501 * pdm.model.variance():
                yield 'shape-model-variance', (case, k, t)
            if pdm.similarity_model is not None if extra else False:
                s = str(pdm.similarity_model)
                if count(s, 'features') != [[pdm.model.n_features]] or count(s, 'total') != [[4.]]:
                    yield 'similarity-model', (case, k, s)
        if hasattr(m, 'expert_ensembles'):
            e = m.expert_ensembles[k]
            t = str(e)
            for words, val in ((('experts', '!ensemble'), [e.n_experts]), (('patch shape',), list(e.patch_shape)),
                               (('context shape',), list(e.context_shape))):
                if count(t, *words) != [[float(v) for v in val]]:
                    yield 'experts-' + words[0].split()[0], (case, k, count(t, *words), val)


def summaries(c):
    bad = []
    m, f = built(c)
    case = c['kind'], c['n'], c['per']
    if m is not None:
        bad += parts(m, case)
    if c['kind'] == 'aps':
        bad += ellipses(m, case)
    case = dict((k, c[k]) for k in ('kind', 'n', 'keepS', 'keepA', 'diag', 'per'))
    scales = SUMMARY_SCALES[c['n']]

    def base(k):
        s = c['said'][k]
        if s['shape']:
            yield 'shape-components', ('shape components', '!active'), [s['shape']]
            yield 'similarity', ('similarity',), [4]
        if s['app']:
            yield 'appearance-components', ('appearance components', '!active'), [s['app']]
        if len(s['patch']):
            yield 'patch-shape', ('patch shape',), s['patch']
            if c['kind'] in ('clm', 'unified'):
                yield 'context-shape', ('context shape',), [s['patch'][0] + 6, s['patch'][1] + 8]
                yield 'experts', ('experts', '!class'), [9]
        if c['kind'] == 'aps':
            a = s['patch'][0] * s['patch'][1]
            yield 'features', ('features per point',), [a, 9 * a]
            yield 'svd', ('svd',), [2]
            yield 'graph', ('undirected graph',), [9, 12]
            yield 'tree', ('tree of depth',), [1, 9, 8]
        if c['kind'] in ('atm', 'atm_masked', 'atm_linear', 'atm_linmasked'):
            yield 'template-shape', ('template shape',), m.warped_templates[k].shape

    def full(k):
        s = c['said'][k]
        for x in base(k):
            yield x
        if s['activeShape']:
            yield 'active-shape', ('active shape',), [s['activeShape']]
        if s['activeApp']:
            yield 'active-appearance', ('active appearance',), [s['activeApp']]
        if s['iters'] and c['kind'] != 'dlib':
            yield 'iterations', ('iterations',), [s['iters']]
        if c['kind'] == 'dlib':
            yield 'cascade', ('cascade depth',), [s['iters']]
            yield 'levels', ('per tree',), [2]
            yield 'trees', ('trees per',), [5]
            yield 'splits', ('split',), [4]
            yield 'pool', ('pool',), [30, 0]
    ref = (m if m is not None else f).reference_shape
    d = float(np.sqrt((ref.range() ** 2).sum()))
    if c['diag'] and abs(d - 44) > 1e-6:
        bad.append(('reference-diagonal', (case, d)))
    if m is not None:
        bad += stated(str(m), base, scales, d, case, 'model')
    t = str(f)
    bad += stated(t, full, scales, d, case, 'fitter')
    if c['kind'] in ('sdm', 'sdaam', 'dlib') and [3.] not in count(t, 'perturbations', 'per shape'):
        bad.append(('fitter-perturbations', (case, count(t, 'perturbations', 'per shape'))))
    if str(f) != t:
        bad.append(('fitter-says-otherwise-later', case))
    return bad


def run_summaries(ctx):
    cs = ctx.tlc('Summary', dict(Kinds=set(SUMMARY_KINDS), MaxScales=3, Settings=SETTINGS), invariants=['Active', 'Alike', 'Emit'], workers=8).cases
    rng = np.random.RandomState(ctx.seed + 2)
    lim = ctx.pick(9, 60)
    sel = []
    for k in SUMMARY_KINDS:
        o = [c for c in sorted(cs, key=str) if c['kind'] == k]
        # mostly those with more than one scale, all different
        w = np.array([(.2, 1., 3.)[c['n'] - 1] * len(set(map(str, c['per']))) for c in o])
        sel += [o[i] for i in sorted(rng.choice(len(o), min(lim, len(o)), replace=False, p=w / w.sum()))]
    verdicts(ctx, 'summaries', [(c,) for c in sel], pmap(summaries, sel, workers=8, chunk=2))


def run(ctx):
    import warnings
    warnings.simplefilter('ignore')
    run_pictures(ctx)
    run_gallery(ctx)
    run_summaries(ctx)
