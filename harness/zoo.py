"""All trainable families of menpofit on small synthetic images, lazily built
and cached; used by the trace-recording harnesses."""
import warnings
warnings.filterwarnings('ignore')
import numpy as np
import functools
import synth

SCALES = (0.5, 1.0)
DIAG = 44


@functools.lru_cache(None)
def images(n=7, tri=True, n_channels=1):
    return tuple(synth.make_images(seed=3, n=n, tri=tri, n_channels=n_channels))


def train_images(**kw):
    return [i.copy() for i in images(**kw)]


@functools.lru_cache(None)
def test_images():
    return tuple(synth.make_images(seed=77, n=3, tri=True))


# ----------------------------------------------------------------- models --
@functools.lru_cache(None)
def model(name, scales=SCALES, n_channels=1):
    ims = train_images(n_channels=n_channels)
    kw = dict(scales=scales, diagonal=DIAG)
    if name.startswith('aam'):
        from menpofit import aam
        c = dict(aam=aam.HolisticAAM, aam_masked=aam.MaskedAAM, aam_linear=aam.LinearAAM,
                 aam_linmasked=aam.LinearMaskedAAM, aam_patch=aam.PatchAAM)[name]
        if name in ('aam_masked', 'aam_patch', 'aam_linmasked'):
            kw['patch_shape'] = (7, 7)
        return c(ims, group='PTS', max_shape_components=5,
                 max_appearance_components=5, **kw)
    if name.startswith('atm'):
        from menpofit import atm
        c = dict(atm=atm.HolisticATM, atm_masked=atm.MaskedATM, atm_linear=atm.LinearATM,
                 atm_linmasked=atm.LinearMaskedATM, atm_patch=atm.PatchATM)[name]
        if name in ('atm_masked', 'atm_patch', 'atm_linmasked'):
            kw['patch_shape'] = (7, 7)
        return c(ims[0], [i.landmarks['PTS'] for i in ims], group='PTS',
                 max_shape_components=5, **kw)
    if name == 'clm':
        from menpofit.clm import CLM
        return CLM(ims, group='PTS', patch_shape=(7, 7), context_shape=(13, 13),
                   max_shape_components=5, **kw)
    if name == 'aps':
        from menpo.shape import UndirectedGraph, Tree
        g = UndirectedGraph.init_from_edges(np.array([[0,1],[1,2],[3,4],[4,5],[6,7],[7,8],[0,3],[3,6],[1,4],[4,7],[2,5],[5,8]]), 9)
        t = Tree.init_from_edges(np.array([[0, i] for i in range(1, 9)]), 9, 0)
        from menpofit.aps import GenerativeAPS
        return GenerativeAPS(ims, group='PTS', patch_shape=(5, 5), appearance_graph=g,
                             deformation_graph=t,
                             max_shape_components=5, n_appearance_components=3, **kw)
    if name == 'unified':
        from menpofit.unified_aam_clm import UnifiedAAMCLM
        return UnifiedAAMCLM(ims, group='PTS', patch_shape=(7, 7), context_shape=(13, 13),
                             max_shape_components=5, max_appearance_components=5, **kw)
    raise KeyError(name)


AAM_ALGS = ['ProjectOutForwardCompositional', 'ProjectOutInverseCompositional',
            'SimultaneousForwardCompositional', 'SimultaneousInverseCompositional',
            'AlternatingForwardCompositional', 'AlternatingInverseCompositional',
            'ModifiedAlternatingForwardCompositional',
            'ModifiedAlternatingInverseCompositional',
            'WibergForwardCompositional', 'WibergInverseCompositional']
ATM_ALGS = ['ForwardCompositional', 'InverseCompositional']
LK_ALGS = ['ForwardAdditive', 'ForwardCompositional', 'InverseCompositional']
LK_RES = ['SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation']
AAM_MODELS = ['aam', 'aam_masked', 'aam_linear', 'aam_linmasked', 'aam_patch']
ATM_MODELS = ['atm', 'atm_masked', 'atm_linear', 'atm_linmasked', 'atm_patch']
SDM_NP = ['NonParametricNewton', 'NonParametricGaussNewton', 'NonParametricPCRRegression',
          'NonParametricOptimalRegression', 'NonParametricOPPRegression']
SDM_PAR = ['ParametricShapeNewton', 'ParametricShapeGaussNewton',
           'ParametricShapeOptimalRegression', 'ParametricShapePCRRegression',
           'ParametricShapeOPPRegression']
SDM_APP = ['ParametricAppearanceProjectOutNewton', 'ParametricAppearanceMeanTemplateGuassNewton',
           'ParametricAppearanceMeanTemplateNewton', 'ParametricAppearanceProjectOutGuassNewton',
           'ParametricAppearanceWeightsGuassNewton', 'ParametricAppearanceWeightsNewton']
SDM_FULL = ['FullyParametricProjectOutNewton', 'FullyParametricProjectOutGaussNewton',
            'FullyParametricMeanTemplateNewton', 'FullyParametricWeightsNewton',
            'FullyParametricProjectOutOPP']
SDAAM = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
         'ProjectOutGaussNewton', 'AppearanceWeightsNewton', 'AppearanceWeightsGaussNewton']


def specs():
    """(name, family) for every fitter."""
    out = []
    for m in AAM_MODELS:
        out += ['%s/%s' % (m, a) for a in AAM_ALGS]
    for m in ATM_MODELS:
        out += ['%s/%s' % (m, a) for a in ATM_ALGS]
    out += ['lk/%s/SSD' % a for a in LK_ALGS]
    out += ['lk/%s/%s' % (a, r) for r in LK_RES[1:] for a in LK_ALGS]
    out += ['clm/ActiveShapeModel', 'clm/RegularisedLandmarkMeanShift']
    out += ['aps/Inverse', 'aps/Forward']
    out += ['unified/ProjectOutRegularisedLandmarkMeanShift',
            'unified/AlternatingRegularisedLandmarkMeanShift']
    out += ['sdm/%s' % a for a in SDM_NP + SDM_PAR + SDM_APP + SDM_FULL]
    out += ['sdaam/%s' % a for a in SDAAM]
    out += ['dlib/ERT']
    return out


LK_FAMILIES = ('aam', 'atm', 'lk')
ITERATIVE = ('aam', 'aam_masked', 'aam_linear', 'aam_linmasked', 'aam_patch', 'atm',
             'atm_masked', 'atm_linear', 'atm_linmasked', 'atm_patch', 'lk', 'clm',
             'aps', 'unified')
CASCADE = ('sdm', 'sdaam', 'dlib')


def family(name):
    return name.split('/')[0]


def make(name, scales=SCALES, **kw):
    """A freshly constructed fitter."""
    p = name.split('/')
    fam = p[0]
    if fam in AAM_MODELS:
        from menpofit import aam
        return aam.LucasKanadeAAMFitter(model(fam, scales), getattr(aam, p[1]), **kw)
    if fam in ATM_MODELS:
        from menpofit import atm
        return atm.LucasKanadeATMFitter(model(fam, scales), getattr(atm, p[1]), **kw)
    if fam == 'lk':
        from menpofit import lk
        im = images(tri=False)[0]
        return lk.LucasKanadeFitter(im.copy(), group='PTS', scales=scales, diagonal=DIAG,
                                    algorithm_cls=getattr(lk, p[1]),
                                    residual_cls=getattr(lk, p[2]), **kw)
    if fam == 'clm':
        from menpofit import clm
        return clm.GradientDescentCLMFitter(model('clm', scales), getattr(clm, p[1]), **kw)
    if fam == 'aps':
        from menpofit import aps
        return aps.GaussNewtonAPSFitter(model('aps', scales), getattr(aps, p[1]), **kw)
    if fam == 'unified':
        from menpofit import unified_aam_clm as u
        return u.UnifiedAAMCLMFitter(model('unified', scales), getattr(u, p[1]), **kw)
    np.random.seed(5)
    if fam == 'sdm':
        from menpofit import sdm
        kw.setdefault('n_iterations', 2)
        kw.setdefault('n_perturbations', 4)
        kw.setdefault('patch_shape', (7, 7))
        return sdm.SupervisedDescentFitter(
            train_images(), group='PTS', sd_algorithm_cls=sd_cls(p[1], scales),
            diagonal=DIAG, scales=scales, **kw)
    if fam == 'sdaam':
        from menpofit import aam
        kw.setdefault('n_iterations', 2)
        kw.setdefault('n_perturbations', 4)
        return aam.SupervisedDescentAAMFitter(
            train_images(), model('aam', scales), group='PTS',
            sd_algorithm_cls=getattr(aam, p[1]), **kw)
    if fam == 'dlib':
        from menpofit.dlib import DlibERT
        return DlibERT(train_images(), group='PTS', scales=scales, diagonal=DIAG,
                       n_perturbations=3, n_iterations=2, n_trees=5, n_tree_levels=2,
                       n_pixel_pairs=30, n_split_tests=4, **kw)
    raise KeyError(name)


def sd_cls(name, scales):
    from menpofit import sdm
    return getattr(sdm, name)


@functools.lru_cache(None)
def fitter(name, scales=SCALES):
    return make(name, scales)


def gt_shape(im):
    return im.landmarks['PTS']


def start_shape(im, shift=(1.5, -1.0), grow=1.06):
    from menpo.shape import PointCloud
    p = gt_shape(im).points
    c = p.mean(0)
    s = gt_shape(im).copy()
    s.points[...] = (p - c) * grow + c + np.array(shift)
    return s
