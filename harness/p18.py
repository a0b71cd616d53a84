"""P18: persisted fitters - histories of loads with injected faults, wrapping."""
import io as _io
import json
import os
import pickle
import resource
import shutil
import tempfile
from functools import partial
from pathlib import Path
import numpy as np
from core import Raw
from pool import pmap

PIECES = 3
NAME = 'balanced_frontal_face_aam'


class Injected(OSError):
    pass


# ------------------------------------------------------------ stored files --
class StubFitter(object):
    def __init__(self, who, **kwargs):
        self.who = who
        self.kwargs = kwargs
        self.seen = []

    def _fit(self, way, image, at, **kwargs):
        from menpo.shape import PointCloud
        from menpofit.result import NonParametricIterativeResult, Result
        self.seen.append((way, image, at, kwargs))
        n = kwargs.get('max_iters', 3)
        shapes = [PointCloud(at.points + i * np.array([1., 2.])) for i in range(n + 1)]
        if kwargs.get('plain'):
            return Result(shapes[-1], image=image, initial_shape=shapes[0], gt_shape=kwargs.get('gt_shape'))
        return NonParametricIterativeResult(shapes[1:], initial_shape=shapes[0], image=image,
                                            gt_shape=kwargs.get('gt_shape'))

    def fit_from_bb(self, image, bounding_box, **kwargs):
        return self._fit('bb', image, bounding_box, **kwargs)

    def fit_from_shape(self, image, initial_shape, **kwargs):
        return self._fit('shape', image, initial_shape, **kwargs)


class Unpicklable(object):
    def __setstate__(self, s):
        raise RuntimeError('damaged')


class NoBuild(object):
    def __init__(self, *a, **k):
        raise RuntimeError('cannot be built')


class Slow(object):
    """Dies (when told to) in the middle of unpickling."""
    def __setstate__(self, s):
        self.pad = s
        if os.environ.get('P18_DIE') == '1':
            os._exit(9)

    def __getstate__(self):
        return self.pad


def payload(kind):
    from menpofit.io import PickleWrappedFitter
    pad = b'0123456789' * 2000
    if kind == 'good':
        pad = Slow()
        pad.pad = b'0123456789' * 2000
    cls, call = StubFitter, True
    if kind == 'nobuild':
        cls = NoBuild
    args = ('stored', )
    kw = dict(pad=pad)
    f = partial(PickleWrappedFitter, cls, args, kw, dict(max_iters=2), dict(max_iters=1), image_preprocess=None)
    if kind == 'nocall':
        f = dict(fitter=f)
    if kind == 'raises':
        u = Unpicklable()
        u.x = f
        f = u
    return pickle.dumps(f, protocol=2)


PAYLOAD = {}


def contents(kind):
    if kind not in PAYLOAD:
        good = payload('good')
        PAYLOAD.update(good=good, truncated=good[:len(good) // 3], garbage=b'<html>not found</html>' * 40, empty=b'')
        for k in ('raises', 'nobuild', 'nocall'):
            PAYLOAD[k] = payload(k)
    return PAYLOAD[kind]


class Response(object):
    """What urlopen returns; serves the payload in pieces and lets the fault
    of this attempt happen at its piece."""
    def __init__(self, data, fault, other):
        n = len(data)
        cuts = [n * i // PIECES for i in range(PIECES + 1)]
        self.pieces = [data[a:b] for a, b in zip(cuts, cuts[1:])]
        self.fault, self.other = fault, other
        self.k = 0
        self.buf = b''
        self.status = self.code = 200
        import email.message
        self.headers = email.message.Message()
        self.headers['content-length'] = str(n)
        self.msg = self.headers
        self.closed = False

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getcode(self):
        return 200

    def geturl(self):
        return 'http://stub'

    def _next(self):
        kind, at = self.fault['kind'], self.fault['at']
        if self.k == at:
            if kind == 'read':
                raise Injected('connection reset')
            if kind == 'interrupt':
                raise KeyboardInterrupt('injected')
            if kind == 'die':
                os._exit(9)
            if kind == 'cut':
                return b''
            if kind == 'other':
                self.other()
        if self.k >= len(self.pieces):
            return b''
        self.k += 1
        return self.pieces[self.k - 1]

    def read(self, n=-1):
        if n is None or n < 0:
            out = self.buf
            self.buf = b''
            while 1:
                p = self._next()
                if not p:
                    return out
                out += p
        if n == 0:
            return b''
        if not self.buf:
            self.buf = self._next()
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    read1 = read

    def readinto(self, b):
        p = self.read(len(b))
        b[:len(p)] = p
        return len(p)

    def readable(self):
        return True

    def __iter__(self):
        while 1:
            p = self.read(1 << 16)
            if not p:
                return
            yield p

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def attempt(home, fault, entry):
    """One load in a process of its own -> dict(outcome, net, ...)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(dn, fd)
            load(home, fault, w, entry)
        finally:
            os._exit(7)
    os.close(w)
    out = b''
    while 1:
        b = os.read(r, 1 << 16)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    msgs = [json.loads(l) for l in out.decode().splitlines()]
    res = dict(outcome='dead', net=0, urls=[])
    for m in msgs:
        if 'url' in m:
            res['net'] += 1
            res['urls'].append(m['url'])
        else:
            res.update(m)
    return res


def chain(e):
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def load(home, fault, w, entry):
    import menpofit.base
    import menpofit.io as mio
    import menpofit.aam.pretrained as pre
    import urllib.request

    def say(**m):
        os.write(w, (json.dumps(m) + '\n').encode())

    def other():
        res = attempt(home, dict(kind='none', at=0), entry)
        if res['outcome'] != 'fitter':
            say(other=res['outcome'])

    kind = fault['kind']
    data = contents(kind if kind in ('raises', 'nobuild', 'nocall') else 'good')

    def connect(url, *a, **k):
        say(url=str(getattr(url, 'full_url', url)))
        if kind == 'connect':
            raise Injected('no route')
        return Response(data, fault, other)

    def home_path():
        return Path(home)

    mio.urlopen = urllib.request.urlopen = connect
    mio.menpofit_src_dir_path = menpofit.base.menpofit_src_dir_path = home_path
    if kind == 'disk':
        n = len(data) * fault['at'] // PIECES
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    os.environ['P18_DIE'] = '1' if kind == 'dieload' else '0'
    try:
        f = pre.load_balanced_frontal_face_fitter() if entry == 'named' else mio.load_fitter(NAME)
        ok = type(f).__name__ == 'PickleWrappedFitter' and f.wrapped_fitter.who == 'stored'
        say(outcome='fitter' if ok else 'nonsense')
    except BaseException as e:
        es = chain(e)
        say(outcome='error', type=type(e).__name__, injected=any(isinstance(x, (Injected, KeyboardInterrupt)) for x in es),
            oserror=any(isinstance(x, OSError) for x in es))
    os._exit(0)


def history(arg):
    n, case = arg
    home = tempfile.mkdtemp(prefix='verif-p18-')
    bad = []
    try:
        import menpofit.io as mio
        entry = 'named' if n % 2 else 'plain'
        data = Path(home) / 'data'
        name = mio.filename_for_fitter(NAME)
        at = data / name
        if case['start'] != 'none':
            data.mkdir()
            at.write_bytes(contents(case['start']))
        for i, step in enumerate(case['log']):
            res = attempt(home, step['fault'], entry)
            kind = step['fault']['kind']
            where = (i, kind, step['fault']['at'], 'was', case['start'] if i == 0 else case['log'][i - 1]['file'])
            if res['outcome'] != step['outcome']:
                bad.append(('outcome', (where, res, step['outcome'])))
            if 'other' in res:
                bad.append(('other-process', (where, res)))
            if (res['net'] > 0) != (step['net'] > 0):
                bad.append(('network-use', (where, res, step['net'])))
            if any(u != mio.url_of_fitter(NAME) for u in res['urls']):
                bad.append(('url', (where, res)))
            if res['outcome'] == 'error' and step['net'] > 0:
                if kind in ('connect', 'read', 'interrupt') and not res.get('injected'):
                    bad.append(('error-replaced', (where, res)))
                if kind == 'disk' and not res.get('oserror'):
                    bad.append(('error-replaced', (where, res)))
            now = 'none' if not at.exists() else 'good' if at.read_bytes() == contents('good') else 'damaged'
            want = step['file'] if step['file'] in ('none', 'good') else 'damaged'
            if now != want:
                bad.append(('file-left', (where, now, want)))
            if bad:
                break
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return bad


# -------------------------------------------------------------- wrapping ----
def transform(m):
    from menpo.transform import Similarity
    r = np.linalg.matrix_power(np.array([[0., -1.], [1., 0.]]), m['q'])
    h = np.eye(3)
    h[:2, :2] = m['s'] * r
    h[:2, 2] = m['t']
    return Similarity(h)


def kwargs_of(a):
    out = {}
    for k, v in (a or {}).items():
        if k == 'iters':
            out['max_iters'] = v
        else:
            out[k] = v
    return out


def wrap(case):
    from menpo.shape import PointCloud
    from menpo.image import Image
    from menpofit.io import PickleWrappedFitter
    T = transform(case['move'])
    pre = None
    calls = []
    if case['move'] != dict(s=1, q=0, t=[0, 0]):
        def pre(image, pointcloud):
            calls.append((image, pointcloud))
            return Image(image.pixels[:, ::2, ::2]), T
    bbk, shk = kwargs_of(case['bb']), kwargs_of(case['shape'])
    keep = dict(bbk), dict(shk)
    f = partial(PickleWrappedFitter, StubFitter, ('w',), dict(size=3), bbk, shk, image_preprocess=pre)()
    if f.wrapped_fitter.who != 'w' or f.wrapped_fitter.kwargs != dict(size=3):
        yield 'construction', case
    start = PointCloud(np.array([case['start'], np.array(case['start']) + [5, 3]], float))
    gt = PointCloud(start.points + 2)
    im = Image(np.arange(120.).reshape(1, 10, 12))
    keep_im, keep_st = im.pixels.copy(), start.points.copy()
    for i, k in enumerate(case['calls']):
        for extra in ({}, dict(plain=1), dict(gt_shape=gt)):
            fit = f.fit_from_bb if k['way'] == 'bb' else f.fit_from_shape
            r = fit(im, start, **dict(kwargs_of(k['args']), **extra))
            way, seen_im, seen_at, seen_kw = f.wrapped_fitter.seen[-1]
            if way != k['way']:
                yield 'method', (case, i, way)
            if seen_kw != dict(kwargs_of(k['effective']), **extra):
                yield 'arguments', (case, i, {a: str(b) for a, b in seen_kw.items()})
            want = [np.array([s, np.array(s) + [5, 3]]) for s in k['shapes']]
            if pre is None:
                if seen_im is not im or seen_at is not start:
                    yield 'start-without-preprocessing', (case, i)
            else:
                if calls[-1][0] is not im or calls[-1][1] is not start:
                    yield 'preprocess-arguments', (case, i)
                if seen_im.pixels.shape != (1, 5, 6):
                    yield 'fitted-image', (case, i)
                if not np.allclose(T.apply(seen_at).points, start.points):
                    yield 'start-frame', (case, i, seen_at.points.tolist())
            if not np.array_equal(r.image.pixels, keep_im):
                yield 'result-image', (case, i)
            if not np.allclose(r.final_shape.points, want[-1]):
                yield 'final-shape', (case, i, r.final_shape.points.tolist(), want[-1].tolist())
            if not np.allclose(r.initial_shape.points, want[0]):
                yield 'initial-shape', (case, i, r.initial_shape.points.tolist(), want[0].tolist())
            if 'plain' not in extra:
                if len(r.shapes) != len(want) or not np.allclose([s.points for s in r.shapes], want):
                    yield 'shapes', (case, i, [s.points.tolist() for s in r.shapes])
            if 'gt_shape' in extra:
                from menpofit.error import euclidean_error
                if not np.array_equal(r.gt_shape.points, gt.points):
                    yield 'gt-shape', (case, i)
                if not np.isclose(r.final_error(euclidean_error),
                                  np.linalg.norm(want[-1] - gt.points, axis=1).mean()):
                    yield 'final-error', (case, i)
            if not (np.array_equal(im.pixels, keep_im) and np.array_equal(start.points, keep_st)):
                yield 'caller-data', (case, i)
            if (bbk, shk) != keep:
                yield 'stored-arguments-changed', (case, i)


def same(a, b, T=None):
    out = []
    mp = (lambda s: s.points) if T is None else (lambda s: T.apply(s).points)
    for nm in ('final_shape', 'initial_shape'):
        if getattr(a, nm) is None and getattr(b, nm) is None:
            continue
        if not np.allclose(getattr(a, nm).points, mp(getattr(b, nm)), atol=1e-8):
            out.append(nm)
    if a.is_iterative != b.is_iterative:
        out.append('is_iterative')
    if a.is_iterative and (len(a.shapes) != len(b.shapes) or not np.allclose(
            [s.points for s in a.shapes], [mp(s) for s in b.shapes], atol=1e-8)):
        out.append('shapes')
    if a.is_iterative and a.n_iters != b.n_iters:
        out.append('n_iters')
    if hasattr(b, 'reconstructed_initial_shapes') and not np.allclose(
            [s.points for s in a.reconstructed_initial_shapes],
            [mp(s) for s in b.reconstructed_initial_shapes], atol=1e-8):
        out.append('reconstructed_initial_shapes')
    if hasattr(b, 'shape_parameters') and not np.allclose(
            np.concatenate([np.ravel(x) for x in a.shape_parameters]),
            np.concatenate([np.ravel(x) for x in b.shape_parameters])):
        out.append('shape_parameters')
    return out


def real(name):
    """Wrapped and pickled, a trained fitter of this family fits as itself."""
    import zoo
    import menpo.io as mio
    from menpofit.io import PickleWrappedFitter, image_greyscale_crop_preprocess
    bad = []
    plain = zoo.fitter(name)
    home = tempfile.mkdtemp(prefix='verif-p18-')
    im = zoo.test_images()[0]
    start = zoo.start_shape(im)
    gt = zoo.gt_shape(im)
    try:
        for pre in (None, image_greyscale_crop_preprocess):
            iters = not name.startswith('dlib')
            w = partial(PickleWrappedFitter, Ready, (plain,), {}, dict(max_iters=3) if iters else {},
                        dict(max_iters=[2, 1]) if iters else {},
                        image_preprocess=pre)
            p = Path(home) / 'x.pkl'
            mio.export_pickle(w, p, overwrite=True)
            f = mio.import_pickle(p)()
            for way, at in (('fit_from_shape', start), ('fit_from_bb', start.bounding_box())):
                for kw, eff in (({}, 3 if way == 'fit_from_bb' else [2, 1]), (dict(max_iters=1 if plain.n_scales == 1 else 2),) * 2):
                    if isinstance(eff, dict):
                        eff = eff['max_iters']
                    eff = dict(max_iters=eff) if iters else {}
                    kw = kw if iters else {}
                    got = getattr(f, way)(im, at, **kw)
                    if pre is None:
                        T, pim = None, im
                        ref = getattr(plain, way)(im, at, **eff)
                    else:
                        pim, T = pre(im, at)
                        ref = getattr(plain, way)(pim, T.pseudoinverse().apply(at), **eff)
                    d = same(got, ref, T)
                    if d:
                        bad.append((name, pre is not None, way, kw, d))
                    if not np.array_equal(got.image.pixels, im.pixels):
                        bad.append((name, 'image'))
                    g = getattr(f, way)(im, at, gt_shape=gt, **kw)
                    from menpofit.error import euclidean_error
                    e = euclidean_error(g.final_shape, gt)
                    if not np.isclose(g.final_error(euclidean_error), e):
                        bad.append((name, 'error', e))
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return bad


def Ready(f):
    return f


def crop(ctx):
    """The default preprocessing: greyscale, cropped around the points, with
    the transform that leads back."""
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.io import image_greyscale_crop_preprocess
    y, x = np.mgrid[:40, :50].astype(float)
    for ch in (1, 3):
        for lo, hi, prop in (((10, 12), (20, 30), 1.0), ((2, 3), (30, 40), 0.5), ((5, 5), (9, 30), 0.1)):
            px = np.stack([y * 50 + x] * ch)
            im = Image(px / px.max())
            pc = PointCloud(np.array([lo, hi], float))
            keep = im.pixels.copy()
            new, T = image_greyscale_crop_preprocess(im, pc, crop_proportion=prop)
            case = dict(channels=ch, lo=lo, hi=hi, prop=prop)
            ctx.replayed += 1
            ctx.count('crop')
            if new.n_channels != 1 or not np.array_equal(im.pixels, keep):
                ctx.fail('crop/image', case, new.n_channels)
            q = T.pseudoinverse().apply(pc.points)
            got = new.sample(PointCloud(q))
            if q.min() < 0 or not np.allclose(got, im.as_greyscale(mode='luminosity').sample(pc) if ch == 3
                                              else im.sample(pc), atol=1e-6):
                ctx.fail('crop/registration', case, (q.tolist(), got.tolist()))


def run(ctx):
    import menpofit.io  # noqa: before forking
    import menpofit.aam.pretrained  # noqa
    contents('good')
    base = dict(Pieces=PIECES, StartFiles=Raw('{"none"}'), Keys=Raw('{}'), Values=Raw('{}'), Moves=Raw('{}'),
                Starts=Raw('{}'))
    files = Raw('{"none", "good", "truncated", "garbage", "empty", "raises", "nobuild", "nocall"}')
    cs = ctx.tlc('Persist', dict(base, Mode='load', Attempts=ctx.pick(2, 3), StartFiles=files),
                 invariants=['Trust', 'Recovers', 'LocalFirst', 'Pending', 'Emit'], workers=8).cases
    rng = np.random.RandomState(ctx.seed)
    lim = ctx.pick(1200, 9000)
    if len(cs) > lim:
        # every single-fault history, and a sample of the others
        first = [c for c in cs if sum(s['fault']['kind'] != 'none' for s in c['log']) <= 1]
        rest = [c for c in cs if sum(s['fault']['kind'] != 'none' for s in c['log']) > 1]
        n = max(lim - len(first), 0)
        cs = first + [rest[i] for i in sorted(rng.choice(len(rest), min(n, len(rest)), replace=False))]
    out = pmap(history, list(enumerate(cs)), workers=8, chunk=8)
    res = {id(c): r for c, r in zip(cs, out)}

    def verdict(c):
        k, r = res[id(c)]
        if k == 'err':
            raise RuntimeError(r[1])
        return r
    ctx.replay('load', cs, verdict)
    moves = Raw('{[s |-> 1, q |-> 0, t |-> <<0, 0>>], [s |-> 2, q |-> 0, t |-> <<3, -4>>], '
                '[s |-> 1, q |-> 1, t |-> <<10, 2>>], [s |-> 4, q |-> 3, t |-> <<-7, 5>>]}')
    wb = dict(base, Mode='wrap', Moves=moves, Starts=Raw('{<<11, 7>>}'), Values=Raw('{1, 2}'))
    cs = ctx.tlc('Persist', dict(wb, Attempts=1, Keys=Raw('{"iters", "tag"}')),
                 invariants=['Precedence', 'FrameLaw', 'Emit'], workers=8).cases
    more = ctx.tlc('Persist', dict(wb, Attempts=2, Keys=Raw('{"iters"}')),
                   invariants=['Precedence', 'FrameLaw', 'Emit'], workers=8).cases
    lim = ctx.pick(1500, 20000)
    cs = (cs + more)
    if len(cs) > lim:
        cs = [cs[i] for i in sorted(rng.choice(len(cs), lim, replace=False))]
    ctx.replay('wrap', cs, wrap)
    crop(ctx)
    names = ctx.pick(['dlib/ERT', 'aam/WibergInverseCompositional', 'lk/InverseCompositional/SSD', 'clm/RegularisedLandmarkMeanShift', 'sdm/NonParametricNewton'], None) or families()
    for nm, (k, r) in zip(names, pmap(real, names)):
        ctx.replayed += 1
        ctx.count('real')
        if k == 'err':
            ctx.fail('real/raises', nm, r[1])
        for b in (r if k == 'ok' else ()):
            ctx.fail('real/differs', nm, b)


def families():
    import zoo
    return [n for n in zoo.specs()]
