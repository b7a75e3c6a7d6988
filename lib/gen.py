"""Generators and small exact references shared by the monitors."""
import math
import numpy as np
import karta
from karta import crs as kcrs
from karta.raster.grid import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand

UTM7 = kcrs.ProjectedCRS("+proj=utm +zone=7 +north +datum=WGS84", "UTM 7N")
UTM33S = kcrs.ProjectedCRS("+proj=utm +zone=33 +south +datum=WGS84", "UTM 33S")

# (crs, lon range, lat range) in which the crs is well behaved
PROJECTED = [
    (UTM7, (-144, -138), (5, 80)),
    (UTM33S, (12, 18), (-75, -5)),
    (kcrs.WebMercator, (-175, 175), (-80, 80)),
    (kcrs.NSIDCNorth, (-179, 179), (55, 89)),
    (kcrs.NSIDCSouth, (-179, 179), (-89, -55)),
    (kcrs.LambertEqualArea, (-170, 170), (-80, 80)),
    (kcrs.GallPetersEqualArea, (-170, 170), (-80, 80)),
]
GEOGRAPHIC = [kcrs.LonLatWGS84, kcrs.LonLatNAD83, kcrs.SphericalEarth]


def rnd_num(rng, scale=None):
    """coordinates of diverse magnitude, many of them round"""
    m = rng.choice([1, 1, 10, 100, 1e4, 5e5]) if scale is None else scale
    k = rng.random()
    if k < 0.4:
        return float(rng.randrange(-50, 51)) * m / 50.0
    if k < 0.6:
        return rng.randrange(-40, 41) * 0.25
    return rng.uniform(-m, m)


def rnd_transform(rng, skew=True, negative=True, square=False):
    x0, y0 = rnd_num(rng), rnd_num(rng)
    def res():
        return rng.choice([1.0, 0.5, 30.0, 2.0, 0.25, rng.uniform(0.1, 50)])
    dx = res()
    dy = dx if (square or rng.random() < 0.4) else res()
    if negative and rng.random() < 0.35:
        dy = -dy
    if negative and rng.random() < 0.2:
        dx = -dx
    sx = sy = 0.0
    if skew and rng.random() < 0.45:
        # keep the cell area well away from zero
        which = rng.choice(["both", "x", "y", "rot"])
        if which == "rot":
            th = rng.uniform(-1.2, 1.2)
            r = abs(dx)
            dx = r * math.cos(th)
            dy = r * math.cos(th)
            sx = -r * math.sin(th)
            sy = r * math.sin(th)
        else:
            if which in ("both", "x"):
                sx = rng.choice([-1, 1]) * rng.uniform(0.05, 0.6) * abs(dx)
            if which in ("both", "y"):
                sy = rng.choice([-1, 1]) * rng.uniform(0.05, 0.6) * abs(dy)
            if rng.random() < 0.3:
                sx = rng.choice([-1, 1]) * 0.5 * abs(dx) if sx else 0.0
    return (x0, y0, dx, dy, sx, sy)


def centers(T, ny, nx):
    """reference cell-centre coordinates, by the documented affine definition"""
    j, i = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    return T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]


def index_of(T, x, y):
    """reference fractional (row, column) index of a point, cell centres at integers"""
    dx, dy, sx, sy = T[2:]
    det = dx * dy - sx * sy
    X = np.asarray(x, dtype=float) - T[0]
    Y = np.asarray(y, dtype=float) - T[1]
    j = (dy * X - sx * Y) / det
    i = (dx * Y - sy * X) / det
    return i - 0.5, j - 0.5


def tscale(T, ny, nx):
    """magnitude of coordinates on the grid"""
    return abs(T[0]) + abs(T[1]) + (abs(T[2]) + abs(T[5])) * nx + (abs(T[3]) + abs(T[4])) * ny


def tcell(T):
    det = abs(T[2] * T[3] - T[4] * T[5])
    return det / max(map(abs, T[2:]))


def rnd_grid_values(rng, ny, nx, nb, dtype, nodata=None, p_nodata=0.0):
    npr = np.random.RandomState(rng.randrange(2 ** 31))
    shape = (ny, nx, nb)
    if np.dtype(dtype).kind == "f":
        if rng.random() < 0.5:
            v = npr.uniform(-1000, 1000, size=shape)
        else:
            v = npr.randint(-50, 50, size=shape).astype(float)
    elif np.dtype(dtype).kind == "u":
        v = npr.randint(0, 250, size=shape)
    else:
        lim = 100 if np.dtype(dtype).itemsize == 1 else 30000
        v = npr.randint(-lim, lim, size=shape)
    v = v.astype(dtype)
    if nodata is not None and p_nodata:
        m = npr.uniform(size=shape[:2]) < p_nodata
        v[m] = nodata
    return v


def point_seg_dist2(px, py, x0, y0, x1, y1):
    dx, dy = x1 - x0, y1 - y0
    L = dx * dx + dy * dy
    if L == 0:
        return (px - x0) ** 2 + (py - y0) ** 2
    t = ((px - x0) * dx + (py - y0) * dy) / L
    t = max(0.0, min(1.0, t))
    return (px - x0 - t * dx) ** 2 + (py - y0 - t * dy) ** 2


def winding(px, py, ring):
    """winding number of a closed ring (list of (x,y)) about a point; works on floats or Fractions"""
    w = 0
    n = len(ring)
    for k in range(n):
        x0, y0 = ring[k][0], ring[k][1]
        x1, y1 = ring[(k + 1) % n][0], ring[(k + 1) % n][1]
        if y0 <= py:
            if y1 > py and (x1 - x0) * (py - y0) - (px - x0) * (y1 - y0) > 0:
                w += 1
        elif y1 <= py and (x1 - x0) * (py - y0) - (px - x0) * (y1 - y0) < 0:
            w -= 1
    return w


def dist_to_ring(px, py, ring):
    n = len(ring)
    return math.sqrt(min(point_seg_dist2(px, py, ring[k][0], ring[k][1], ring[(k + 1) % n][0], ring[(k + 1) % n][1])
                         for k in range(n)))


def star_polygon(rng, cx, cy, r, n=None, cw=None):
    """simple (non self-intersecting) polygon, star-shaped about (cx, cy)"""
    n = n or rng.randrange(3, 13)
    while True:
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        gaps = [b - a for a, b in zip(ang, ang[1:] + [ang[0] + 2 * math.pi])]
        if max(gaps) < math.pi * 0.95 and min(gaps) > 1e-3:
            break
    pts = [(cx + r * rng.uniform(0.3, 1) * math.cos(a), cy + r * rng.uniform(0.3, 1) * math.sin(a)) for a in ang]
    # radii must be one per vertex
    out = []
    for a in ang:
        q = r * rng.uniform(0.3, 1.0)
        out.append((cx + q * math.cos(a), cy + q * math.sin(a)))
    if cw if cw is not None else rng.random() < 0.5:
        out.reverse()
    return out
