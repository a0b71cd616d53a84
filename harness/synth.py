"""Synthetic images/shapes shared by the conformance harnesses (deterministic)."""
import warnings
warnings.filterwarnings("ignore")
import numpy as np
from menpo.image import Image
from menpo.shape import PointCloud, TriMesh

BASE = np.array([[0., 0.], [0., 12.], [0., 24.],
                 [12., 0.], [11., 13.], [12., 24.],
                 [24., 0.], [24., 12.], [24., 24.]])
TRI = np.array([[0, 1, 3], [1, 4, 3], [1, 2, 4], [2, 5, 4],
                [3, 4, 6], [4, 7, 6], [4, 5, 7], [5, 8, 7]])


def smooth(rng, shape, k=3):
    x = rng.rand(*shape)
    for _ in range(k):
        x = (x + np.roll(x, 1, 0) + np.roll(x, -1, 0)
             + np.roll(x, 1, 1) + np.roll(x, -1, 1)) / 5.0
    return x


def make_shape(rng, amp=1.2, offset=(18., 18.), scale=1.0, tri=False):
    pts = BASE * scale + np.asarray(offset) + amp * rng.randn(*BASE.shape)
    return TriMesh(pts, trilist=TRI) if tri else PointCloud(pts)


def make_image(rng, tri=False, n_channels=1, size=(60, 64), group='PTS',
               amp=1.2, scale=1.0):
    chans = [smooth(rng, size) for _ in range(n_channels)]
    shp = make_shape(rng, amp=amp, tri=tri, scale=scale)
    px = np.stack(chans)
    # add blobs at landmarks so that there is correlated local appearance
    yy, xx = np.mgrid[0:size[0], 0:size[1]]
    for i, (y, x) in enumerate(shp.points):
        px += (0.3 + 0.1 * i) * np.exp(-((yy - y) ** 2 + (xx - x) ** 2) / 18.0)
    px = px - px.min()
    px = px / px.max()
    im = Image(px)
    im.landmarks[group] = shp
    return im


def make_images(seed=0, n=8, **kw):
    rng = np.random.RandomState(seed)
    return [make_image(rng, **kw) for _ in range(n)]
