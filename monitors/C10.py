"""C10 terrain derivatives follow the 3x3 neighbourhood definition in coordinate units."""
import math
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster import misc
from karta.raster.grid import RegularGrid

RULE = ("a case is a plane, a smooth or a random surface with nodata holes on an unskewed grid of either orientation; "
        "slope, gradient, aspect, divergence and normalised potential vectors are compared with a cell-by-cell "
        "reference; distinct by transform, values and holes")


def mkT(rng):
    T = gen.rnd_transform(rng, skew=False)
    return T


def horn(D, i, j, dx, dy):
    """weighted central differences; NaN where a needed neighbour is missing"""
    e = [D[i + a][j + 1] for a in (-1, 0, 1)]
    w = [D[i + a][j - 1] for a in (-1, 0, 1)]
    n = [D[i + 1][j + a] for a in (-1, 0, 1)]
    s = [D[i - 1][j + a] for a in (-1, 0, 1)]
    gx = ((e[0] + 2 * e[1] + e[2]) - (w[0] + 2 * w[1] + w[2])) / (8 * dx)
    gy = ((n[0] + 2 * n[1] + n[2]) - (s[0] + 2 * s[1] + s[2])) / (8 * dy)
    return gx, gy


@scenario(quick=500, thorough=5000, need={"planes": 300})
def plane(ctx):
    """on a plane every method returns the plane's own gradient"""
    rng = ctx.rng
    T = mkT(rng)
    ny, nx = rng.randrange(4, 12), rng.randrange(4, 12)
    a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
    X, Y = gen.centers((0, 0) + T[2:], ny, nx)
    D = a * X + b * Y
    big = np.abs(D).max() + 1e-3
    g = RegularGrid(T, values=D)
    cell = min(abs(T[2]), abs(T[3]))
    tol = 2e-6 * big / cell + 1e-9
    ctx.note(T=T, size=(ny, nx), a=a, b=b)
    s = misc.slope(g)
    ctx.arr_eq(s[:, :, 0], np.full((ny, nx), math.hypot(a, b)), "slope of a plane", atol=4 * tol)
    gx, gy = misc.gradient(g)
    I = (slice(1, -1), slice(1, -1), 0)
    ctx.arr_eq(gx[I], np.full((ny - 2, nx - 2), a), "gradient x of a plane", atol=tol)
    ctx.arr_eq(gy[I], np.full((ny - 2, nx - 2), b), "gradient y of a plane", atol=tol)
    if math.hypot(a, b) > 50 * tol:
        asp = misc.aspect(g)[I]
        want = math.atan2(b, -a)
        d = np.abs((asp - want + math.pi) % (2 * math.pi) - math.pi)
        ctx.check(bool((d < 4 * tol / math.hypot(a, b) + 1e-6).all()), "aspect of a plane", want=want, got=asp.tolist())
        u, v = misc.normed_potential_vectors(g)
        h = math.hypot(a, b)
        ctx.arr_eq(u[I], np.full((ny - 2, nx - 2), a / h), "normed potential vector x", atol=10 * tol / h + 1e-6)
        ctx.arr_eq(v[I], np.full((ny - 2, nx - 2), b / h), "normed potential vector y", atol=10 * tol / h + 1e-6)
    for r in (s, gx, gy):
        ctx.check(tuple(r.transform) == T and tuple(r.size) == (ny, nx), "result keeps georeferencing")
    ctx.event("planes")
    ctx.distinct(T, ny, nx, a, b)


@scenario(quick=400, thorough=4000, need={"cells": 3000, "nan_cells": 1000, "multiband": 60})
def surface(ctx):
    """random surfaces with nodata holes, cell by cell"""
    rng = ctx.rng
    T = mkT(rng)
    ny, nx = rng.randrange(3, 10), rng.randrange(3, 10)
    nb = rng.choice([1, 1, 2, 3])
    dt = rng.choice([np.float64, np.float32, np.int32, np.int16])
    npr = np.random.RandomState(rng.randrange(2**31))
    v = npr.randint(-200, 200, size=(ny, nx, nb)).astype(dt)
    nod = -9999 if np.dtype(dt).kind == "i" else rng.choice([-9999.0, float("nan")])
    holes = npr.uniform(size=(ny, nx)) < rng.choice([0, 0.05, 0.15])
    v[holes] = nod
    g = RegularGrid(T, values=v, nodata_value=nod)
    band = rng.randrange(nb)
    D = np.where(holes, np.nan, v[:, :, band].astype(float))
    dx, dy = T[2], T[3]
    GX = np.full((ny, nx), np.nan)
    GY = np.full((ny, nx), np.nan)
    for i in range(1, ny - 1):
        for j in range(1, nx - 1):
            GX[i, j], GY[i, j] = horn(D, i, j, dx, dy)
    kw = {} if band == 0 and rng.random() < 0.5 else {"band": band}
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, nodata=nod, band=band, holes=int(holes.sum()))
    scale = 400.0 / min(abs(dx), abs(dy))
    I = (slice(1, -1), slice(1, -1))
    gx, gy = misc.gradient(g, **kw)
    ctx.arr_eq(gx[:, :, 0].astype(float), GX, "gradient x (NaN on the border and beside nodata)", atol=1e-5 * scale)
    ctx.arr_eq(gy[:, :, 0].astype(float), GY, "gradient y (NaN on the border and beside nodata)", atol=1e-5 * scale)
    S = np.sqrt(GX ** 2 + GY ** 2)
    s = misc.slope(g, **kw)
    ctx.arr_eq(s[:, :, 0].astype(float)[I], S[I], "slope", atol=1e-5 * scale)
    A = np.arctan2(GY, -GX)
    asp = misc.aspect(g, **kw)[:, :, 0].astype(float)
    ok = ~(S < 1e-4 * scale)          # direction undefined on flat cells; keeps NaNs
    d = np.abs((asp - A + math.pi) % (2 * math.pi) - math.pi)
    ctx.check(bool((np.isnan(asp) == np.isnan(A))[ok].all()), "aspect NaN pattern")
    ctx.check(not (d[ok] > 2e-3).any(), "aspect")
    m = S[~np.isnan(S)]
    if m.size and m.max() > 1e-3 * scale:
        u, w = misc.normed_potential_vectors(g, **kw)
        ctx.arr_eq(u[:, :, 0].astype(float), GX / m.max(), "normed potential vectors x", atol=1e-4)
        ctx.arr_eq(w[:, :, 0].astype(float), GY / m.max(), "normed potential vectors y", atol=1e-4)
    ctx.arr_eq(g[:, :, :], v, "terrain functions changed the source")
    ctx.event("cells", int((~np.isnan(S)).sum()))
    ctx.event("nan_cells", int(np.isnan(S).sum()))
    if nb > 1:
        ctx.event("multiband")
    ctx.distinct(T, v.tobytes().hex()[:200])


@scenario(quick=300, thorough=3000, need={"cells": 2000, "own holes": 300})
def band_holes(ctx):
    """nodata that differs between bands: missing cells of the chosen band are never differentiated (those of
    the other bands may or may not blank their neighbours), and the result stays in the grid's system"""
    rng = ctx.rng
    T = mkT(rng)
    ny, nx, nb = rng.randrange(3, 10), rng.randrange(3, 10), rng.choice([2, 3])
    dt = rng.choice([np.float64, np.float32, np.int32])
    npr = np.random.RandomState(rng.randrange(2**31))
    v = npr.randint(-200, 200, size=(ny, nx, nb)).astype(dt)
    nod = -9999 if np.dtype(dt).kind == "i" else rng.choice([-9999.0, float("nan")])
    holes = npr.uniform(size=(ny, nx, nb)) < rng.choice([0.03, 0.1])
    v[holes] = nod
    crs = rng.choice([gen.kcrs.Cartesian, gen.UTM7, gen.kcrs.WebMercator])
    g = RegularGrid(T, values=v, nodata_value=nod, crs=crs)
    b0, b1 = rng.sample(range(nb), 2)
    dx, dy = T[2], T[3]
    def field(b, blank):
        return np.where(blank, np.nan, v[:, :, b].astype(float))
    def refs(fn):
        return [fn(holes[:, :, [b0]].any(axis=2), holes[:, :, [b1]].any(axis=2)), fn(*[holes.any(axis=2)] * 2)]
    def grads(h0, _):
        D = field(b0, h0)
        G = np.full((2, ny, nx), np.nan)
        for i in range(1, ny - 1):
            for j in range(1, nx - 1):
                G[:, i, j] = horn(D, i, j, dx, dy)
        return G
    def div(h0, h1):
        U, V = field(b0, h0), field(b1, h1)
        W = np.full((ny, nx), np.nan)
        W[1:-1, 1:-1] = (U[1:-1, 2:] - U[1:-1, :-2]) / (2 * dx) + (V[2:, 1:-1] - V[:-2, 1:-1]) / (2 * dy)
        return W
    def either(r, wants, msg, atol, inner=False):
        ctx.check(r.crs == crs and tuple(r.transform) == T and tuple(r.size) == (ny, nx), msg + ": georeferencing")
        ctx.check(r.nodata_value != r.nodata_value, msg + ": missing cells are NaN")
        got = r[:, :, 0].astype(float)
        I = (slice(1, -1), slice(1, -1)) if inner else (slice(None), slice(None))
        ok = any((np.isnan(w[I]) == np.isnan(got[I])).all() and not (np.abs(w[I] - got[I]) > atol).any() for w in wants)
        ctx.check(ok, msg + ": nodata of one band", got=got.tolist(), want=wants[0].tolist())
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, nodata=nod, bands=(b0, b1))
    scale = 400.0 / min(abs(dx), abs(dy))
    G = refs(grads)
    gx, gy = misc.gradient(g, band=b0)
    either(gx, [w[0] for w in G], "gradient x", 1e-5 * scale)
    either(gy, [w[1] for w in G], "gradient y", 1e-5 * scale)
    S = [np.hypot(w[0], w[1]) for w in G]
    either(misc.slope(g, band=b0), S, "slope", 1e-5 * scale, inner=True)
    either(misc.divergence(g, bands=(b0, b1)), refs(div), "divergence", 1e-5 * scale)
    m = [s[~np.isnan(s)] for s in S]
    if all(t.size and t.max() > 1e-3 * scale for t in m):
        u, w = misc.normed_potential_vectors(g, band=b0)
        either(u, [a[0] / t.max() for a, t in zip(G, m)], "normed potential vectors x", 1e-4)
        either(w, [a[1] / t.max() for a, t in zip(G, m)], "normed potential vectors y", 1e-4)
        asp = misc.aspect(g, band=b0)
        ctx.check(asp.crs == crs and tuple(asp.transform) == T, "aspect: georeferencing")
        blank = np.isnan(asp[:, :, 0].astype(float))
        ctx.check(any((blank == np.isnan(s)).all() for s in S), "aspect: nodata of one band")
        h = misc.hillshade(g, band=b0)
        ctx.check(h.crs == crs, "hillshade: coordinate system")
        blank = np.isnan(h[:, :, 0].astype(float))
        ctx.check(any((blank == np.isnan(s)).all() for s in S), "hillshade: nodata of one band")
    ctx.arr_eq(g[:, :, :], v, "terrain functions changed the source")
    ctx.event("cells", int((~np.isnan(S[0])).sum()))
    ctx.event("own holes", int(holes[:, :, b0].sum()))
    ctx.distinct(T, v.tobytes().hex()[:200])


@scenario(quick=300, thorough=3000, need={"cells": 2000})
def divergence(ctx):
    """divergence of a two-band field"""
    rng = ctx.rng
    T = mkT(rng)
    ny, nx = rng.randrange(3, 10), rng.randrange(3, 10)
    nb = rng.choice([2, 2, 3])
    dt = rng.choice([np.float64, np.float32, np.int32, np.uint8])
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
    npr = np.random.RandomState(rng.randrange(2**31))
    nod = 255 if dt == np.uint8 else (-9999 if dt == np.int32 else rng.choice([-9999.0, float("nan")]))
    if nod == nod:
        v[v == nod] = 1
    holes = npr.uniform(size=(ny, nx)) < rng.choice([0, 0.1])
    v[holes] = nod
    g = RegularGrid(T, values=v, nodata_value=nod)
    b0, b1 = rng.sample(range(nb), 2)
    kw = {} if (b0, b1) == (0, 1) and rng.random() < 0.5 else {"bands": (b0, b1)}
    U = np.where(holes, np.nan, v[:, :, b0].astype(float))
    V = np.where(holes, np.nan, v[:, :, b1].astype(float))
    want = np.full((ny, nx), np.nan)
    for i in range(1, ny - 1):
        for j in range(1, nx - 1):
            want[i, j] = (U[i, j + 1] - U[i, j - 1]) / (2 * T[2]) + (V[i + 1, j] - V[i - 1, j]) / (2 * T[3])
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, bands=(b0, b1))
    d = misc.divergence(g, **kw)
    scale = (np.nanmax(np.abs(U)) if not holes.all() else 1) + 1e3
    ctx.arr_eq(d[:, :, 0].astype(float), want, "divergence", atol=1e-5 * scale / min(abs(T[2]), abs(T[3])))
    ctx.event("cells", int((~np.isnan(want)).sum()))
    ctx.distinct(T, v.tobytes().hex()[:200])


@scenario(quick=40, thorough=200, need={"refused": 30})
def skew_refused(ctx):
    """skewed grids are refused rather than differentiated wrongly"""
    rng = ctx.rng
    g = RegularGrid((0, 0, 1, 1, rng.choice([0.2, -0.3]), rng.choice([0.0, 0.1])), values=np.arange(50.0).reshape(5, 5, 2))
    f = rng.choice([misc.slope, misc.aspect, misc.gradient, misc.divergence, misc.normed_potential_vectors])
    ctx.raises(NotImplementedError, lambda: f(g), "skewed grid must be refused")
    ctx.event("refused")
    ctx.note(f=f.__name__)
    ctx.distinct(f.__name__, g.transform)


@scenario(quick=120, thorough=1200, need={"shades": 60})
def hillshade(ctx):
    """hillshade looks at the chosen band only, is blank exactly where the gradient is, and a flat surface is uniform"""
    rng = ctx.rng
    T = mkT(rng)
    ny, nx = rng.randrange(4, 10), rng.randrange(4, 10)
    nb = rng.choice([1, 2, 3])
    npr = np.random.RandomState(rng.randrange(2**31))
    v = npr.uniform(-50, 50, size=(ny, nx, nb))
    holes = npr.uniform(size=(ny, nx)) < rng.choice([0, 0.05])
    v[holes] = np.nan
    band = rng.randrange(nb)
    kw = dict(azimuth=rng.uniform(0, 360), elevation=rng.uniform(5, 85))
    gx, gy = misc.gradient(RegularGrid(T, values=v), band=band)
    blank = np.isnan(gx[:, :, 0]) | np.isnan(gy[:, :, 0])
    if blank.all():
        raise Skip
    ctx.note(T=T, size=(ny, nx, nb), band=band, **kw)
    h = misc.hillshade(RegularGrid(T, values=v), band=band, **kw)
    h1 = misc.hillshade(RegularGrid(T, values=v[:, :, band:band + 1]), **kw)
    if band == 0:
        ctx.arr_eq(misc.hillshade(RegularGrid(T, values=v), **kw)[:, :, 0], h[:, :, 0], "hillshade of the first band unless told otherwise")
    ctx.arr_eq(np.isnan(h[:, :, 0]), blank, "hillshade: blank cells")
    ctx.arr_eq(h[:, :, 0], h1[:, :, 0], "hillshade: the chosen band decides", atol=1e-12)
    ctx.check(tuple(h.transform) == T and tuple(h.size) == (ny, nx), "hillshade keeps georeferencing")
    # illumination: the light direction against the unit normal of the surface, outliers clipped
    a, e = np.radians(kw["azimuth"]), np.radians(kw["elevation"])
    gx, gy = gx[:, :, 0].astype(float), gy[:, :, 0].astype(float)
    want = (-gx * np.cos(a) - gy * np.sin(a) + np.sin(e)) / np.sqrt(gx ** 2 + gy ** 2 + 1)
    q = np.percentile(want[~blank], [2, 98])
    ctx.arr_eq(h[:, :, 0].astype(float), np.clip(want, q[0], q[1]), "hillshade: illumination of the surface", atol=1e-5)
    flat = misc.hillshade(RegularGrid(T, values=np.full((ny, nx), 3.0)), **kw)[1:-1, 1:-1, 0]
    ctx.check(float(flat.max() - flat.min()) < 1e-9, "hillshade of a flat surface is uniform")
    ctx.event("shades")
    ctx.distinct(T, ny, nx, band, kw["azimuth"])
