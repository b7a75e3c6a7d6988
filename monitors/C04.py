"""C04 windowing (clip, resize, chunking) keeps the coordinate -> value map."""
import math
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster.grid import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from lib import systems as other_datums
import karta

RULE = ("a case is a random grid with unique cell values and a random window (inside, straddling, outside); the oracle "
        "locates every output cell in the source by coordinates and compares values and nodata; distinct by grid and window")


def mk(ctx, rng, skew=True, negative=True, minsize=1):
    T = gen.rnd_transform(rng, skew=skew, negative=negative)
    ny, nx = rng.randrange(minsize, 16), rng.randrange(minsize, 16)
    nb = rng.choice([1, 1, 2, 3])
    dt = rng.choice([np.float64, np.float64, np.int32, np.int16, np.float32])
    v = (np.arange(ny * nx * nb).reshape(ny, nx, nb) + rng.randrange(1, 50)).astype(dt)
    kw = {}
    if rng.random() < 0.5:
        kw["nodata_value"] = rng.choice([-1, -9999])
    elif dt in (np.float64, np.float32):
        kw["nodata_value"] = float("nan")
    if "nodata_value" in kw and rng.random() < 0.5:
        v[rng.randrange(ny), rng.randrange(nx)] = kw["nodata_value"]
    c = rng.choice([None, gen.UTM7])
    g = RegularGrid(T, values=v, bandclass=rng.choice([None, SimpleBand, CompressedBand]), crs=c, **kw)
    tol = 1e-9 + 1e-10 * gen.tscale(T, ny, nx) / gen.tcell(T)
    if tol > 1e-4:
        raise Skip
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, kw=str(kw))
    return g, v, T, tol


def same_meta(ctx, new, g, what):
    ctx.check(new.nodata_value == g.nodata_value or (new.nodata_value != new.nodata_value and g.nodata_value != g.nodata_value), what + ": nodata value kept")
    ctx.check(new.crs == g.crs, what + ": crs kept")
    ctx.eq(new.nbands, g.nbands, what + ": number of bands")
    ctx.eq(tuple(new.transform[2:]), tuple(g.transform[2:]), what + ": resolution and skew kept")
    ctx.check(new[:, :, :].dtype == g[:, :, :].dtype, what + ": dtype kept")


def offset_of(ctx, new, T, tol, what):
    """integer row/column offset of new's origin in the source grid"""
    i, j = gen.index_of(T, new.transform[0], new.transform[1])
    i, j = float(i) + 0.5, float(j) + 0.5
    ctx.check(abs(i - round(i)) < 100 * tol and abs(j - round(j)) < 100 * tol, what + ": result cells are not source cells", off=(i, j))
    return int(round(i)), int(round(j))


@scenario(quick=1200, thorough=12000, need={"clips": 600, "beyond": 200, "skewed": 150})
def clip(ctx):
    """clip() returns exactly the cells whose centres lie in the box (unskewed), all of them at least (skewed)"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng)
    ny, nx, nb = v.shape
    X, Y = gen.centers(T, ny, nx)
    span = lambda A: (A.min(), A.max())
    def rng_range(A, cell):
        lo, hi = span(A)
        pad = rng.choice([0.0, 3.3, 1.7]) * cell
        a, b = sorted((rng.uniform(lo - pad, hi + pad), rng.uniform(lo - pad, hi + pad)))
        if rng.random() < 0.2:
            a, b = lo - 5.7 * cell, hi + 7.1 * cell
        return a, b
    xmin, xmax = rng_range(X, abs(T[2]) + abs(T[4]))
    ymin, ymax = rng_range(Y, abs(T[3]) + abs(T[5]))
    skewed = bool(T[4] or T[5])
    inside = (X >= xmin) & (X <= xmax) & (Y >= ymin) & (Y <= ymax)
    m = 10 * tol * max(map(abs, T[2:]))
    near = (abs(X - xmin) < m) | (abs(X - xmax) < m) | (abs(Y - ymin) < m) | (abs(Y - ymax) < m)
    if near.any() or not inside.any():
        raise Skip
    keep = g[:, :, :]
    new = g.clip(xmin, xmax, ymin, ymax)
    ctx.note(box=(xmin, xmax, ymin, ymax))
    same_meta(ctx, new, g, "clip")
    oi, oj = offset_of(ctx, new, T, tol, "clip")
    my, mx = new.size
    ctx.check(oi >= 0 and oj >= 0 and oi + my <= ny and oj + mx <= nx, "clip: result reaches beyond the source", off=(oi, oj), size=(my, mx))
    ctx.arr_eq(new[:, :, :], v[oi:oi + my, oj:oj + mx], "clip: value at a coordinate changed")
    ii, jj = np.nonzero(inside)
    ctx.check(ii.min() >= oi and ii.max() < oi + my and jj.min() >= oj and jj.max() < oj + mx, "clip: lost a cell whose centre is in the box")
    if not skewed:
        ctx.eq((my, mx), (ii.max() - ii.min() + 1, jj.max() - jj.min() + 1), "clip: kept cells outside the box")
    ctx.arr_eq(g[:, :, :], keep, "clip changed the source")
    ctx.event("clips")
    if skewed:
        ctx.event("skewed")
    if xmin < X.min() or xmax > X.max() or ymin < Y.min() or ymax > Y.max():
        ctx.event("beyond")
    ctx.distinct(T, (ny, nx), (xmin, xmax, ymin, ymax))


@scenario(quick=30, thorough=400, need={"clips": 15})
def clip_crs(ctx):
    """a box in another crs selects the cells in the projected corner box"""
    rng = ctx.rng
    c, lons, lats = rng.choice(gen.PROJECTED[:3])
    lon, lat = rng.uniform(*lons), rng.uniform(lats[0] + 5, lats[1] - 5)
    x0, y0 = c.project(lon, lat)
    T = (x0, y0, 200.0, 300.0, 0.0, 0.0)
    ny, nx = rng.randrange(4, 12), rng.randrange(4, 12)
    v = np.arange(ny * nx, dtype=float).reshape(ny, nx, 1)
    g = RegularGrid(T, values=v, crs=c)
    W = gen.kcrs.LonLatWGS84
    X, Y = gen.centers(T, ny, nx)
    cx, cy = rng.uniform(X.min(), X.max()), rng.uniform(Y.min(), Y.max())
    lo, la = c.transform(W, cx, cy)
    d1, d2 = rng.uniform(0.002, 0.02), rng.uniform(0.002, 0.02)
    px, py = W.transform(c, np.array([lo - d1, lo - d1, lo + d1, lo + d1]), np.array([la - d2, la + d2, la - d2, la + d2]))
    xmin, xmax, ymin, ymax = min(px), max(px), min(py), max(py)
    inside = (X >= xmin) & (X <= xmax) & (Y >= ymin) & (Y <= ymax)
    near = (abs(X - xmin) < 1e-3) | (abs(X - xmax) < 1e-3) | (abs(Y - ymin) < 1e-3) | (abs(Y - ymax) < 1e-3)
    if near.any() or not inside.any():
        raise Skip
    new = g.clip(lo - d1, lo + d1, la - d2, la + d2, crs=W)
    oi, oj = offset_of(ctx, new, T, 1e-6, "clip(crs)")
    ii, jj = np.nonzero(inside)
    ctx.eq((oi, oj) + tuple(new.size), (ii.min(), jj.min(), ii.max() - ii.min() + 1, jj.max() - jj.min() + 1), "clip(crs): cells selected")
    ctx.arr_eq(new[:, :, :], v[oi:oi + new.size[0], oj:oj + new.size[1]], "clip(crs): values")
    ctx.note(T=T, crs=c.name, box=(xmin, xmax, ymin, ymax))
    ctx.event("clips")
    ctx.distinct(T, (xmin, xmax))


@scenario(quick=1200, thorough=12000, need={"resizes": 900, "disjoint": 20, "larger": 30, "negative": 200})
def resize(ctx):
    """resize() covers the requested box; each new cell holds the nearest source cell, nodata off the source"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng, skew=False)
    ny, nx, nb = v.shape
    x0, y0, dx, dy = T[:4]
    def side(n):
        a = rng.choice([rng.uniform(-6, n + 3), rng.randrange(-5, n + 2)])
        w = rng.choice([rng.uniform(0.6, 18), rng.randrange(1, 18)])
        return a, w
    (a, w), (b, h) = side(nx), side(ny)
    if rng.random() < 0.05:
        a = nx + rng.uniform(1, 5)
    def tie(s):
        f = s % 1
        return abs(f - 0.5) < 1e-6 + 20 * tol
    if tie(a) or tie(b):
        raise Skip
    corner = (x0 + a * dx, y0 + b * dy)
    far = (x0 + (a + w) * dx, y0 + (b + h) * dy)
    bb = (min(corner[0], far[0]), min(corner[1], far[1]), max(corner[0], far[0]), max(corner[1], far[1]))
    if dx < 0 or dy < 0: ctx.event("negative")
    keep = g[:, :, :]
    new = g.resize(bb)
    ctx.note(bb=bb, a=a, w=w, b=b, h=h)
    same_meta(ctx, new, g, "resize")
    ctx.check(abs(new.transform[0] - corner[0]) <= tol * abs(dx) and abs(new.transform[1] - corner[1]) <= tol * abs(dy), "resize: lower-left corner is that of the box")
    my, mx = new.size
    for n, s in ((mx, w), (my, h)):
        ok = n == math.ceil(s) or (abs(s - round(s)) < 20 * tol + 1e-9 and abs(n - s) <= 1.01)
        ctx.check(ok, "resize: size does not match the box", n=n, want=s)
    out = new[:, :, :]
    src = np.empty(out.shape, dtype=out.dtype)
    src[...] = g.nodata_value
    for i in range(my):
        si = int(math.floor(b + i + 0.5))
        for j in range(mx):
            sj = int(math.floor(a + j + 0.5))
            if 0 <= si < ny and 0 <= sj < nx:
                src[i, j] = v[si, sj]
    ctx.arr_eq(out, src, "resize: value at a coordinate is not the nearest source value")
    ctx.arr_eq(g[:, :, :], keep, "resize changed the source")
    ctx.event("resizes")
    if a + w < 0 or b + h < 0 or a > nx or b > ny:
        ctx.event("disjoint")
    if a <= 0 and b <= 0 and a + w >= nx and b + h >= ny:
        ctx.event("larger")
    ctx.distinct(T, (ny, nx), bb)


@scenario(quick=500, thorough=9000, need={"grids": 350, "chunks": 3000, "overlap": 150})
def aschunks(ctx):
    """chunks tile the grid: every cell is in a chunk, exactly one without overlap, at its own coordinates"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng)
    ny, nx, nb = v.shape
    kw = {}
    over = (0, 0)
    if rng.random() < 0.85:
        size = (rng.randrange(1, nx + 3), rng.randrange(1, ny + 3))
        kw["size"] = size
        if rng.random() < 0.4:
            over = (rng.randrange(0, size[0]), rng.randrange(0, size[1]))
            kw["overlap"] = over
    else:
        size = None
    if rng.random() < 0.3:
        kw["copy"] = rng.random() < 0.5
    ctx.note(kw=str(kw))
    count = np.zeros((ny, nx), dtype=int)
    nch = 0
    keep = g[:, :, :]
    for ch in g.aschunks(**kw):
        nch += 1
        ctx.check(nch <= (ny + 1) * (nx + 1), "aschunks: more chunks than cells")
        same_meta(ctx, ch, g, "aschunks")
        oi, oj = offset_of(ctx, ch, T, tol, "aschunks")
        my, mx = ch.size
        ctx.check(my >= 1 and mx >= 1 and oi >= 0 and oj >= 0 and oi + my <= ny and oj + mx <= nx, "aschunks: chunk reaches beyond the grid")
        if size:
            ctx.check(mx <= size[0] and my <= size[1], "aschunks: chunk larger than asked")
            if oi + size[1] <= ny:
                ctx.eq(my, size[1], "aschunks: chunk height")
            if oj + size[0] <= nx:
                ctx.eq(mx, size[0], "aschunks: chunk width")
            ctx.check(oi % (size[1] - over[1]) == 0 and oj % (size[0] - over[0]) == 0, "aschunks: chunk stride")
        ctx.arr_eq(ch[:, :, :], v[oi:oi + my, oj:oj + mx], "aschunks: value at a coordinate changed")
        count[oi:oi + my, oj:oj + mx] += 1
        ch[:, :, :] = 0
        ctx.event("chunks")
    ctx.check(count.min() >= 1, "aschunks: a cell is in no chunk", missing=int((count == 0).sum()))
    if over == (0, 0):
        ctx.check(count.max() == 1, "aschunks: a cell is in two chunks")
    else:
        ctx.event("overlap")
    ctx.arr_eq(g[:, :, :], keep, "aschunks: writing to a chunk changed the source")
    ctx.event("grids")
    ctx.distinct(T, (ny, nx), str(kw))


@scenario(quick=60, thorough=800, need={"other_system": 40})
def other_systems(ctx):
    """clip by a box on another datum: the box around its corners in the grid's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    geo = isinstance(A, karta.crs.GeographicalCRS)
    x0, y0 = other_datums.mover(karta.crs.LonLatWGS84, A)((9.7, 49.8))
    s = 0.02 if geo else 1500.0
    g = RegularGrid((x0, y0, s, s, 0.0, 0.0), values=np.arange(400.0).reshape(20, 20), crs=A)
    p, q = to_b(other_datums.near(rng, 0.05)), to_b(other_datums.near(rng, 0.05))
    box = (min(p[0], q[0]), max(p[0], q[0]), min(p[1], q[1]), max(p[1], q[1]))
    c = [to_a((x, y)) for x in box[:2] for y in box[2:]]
    own = (min(a[0] for a in c), max(a[0] for a in c), min(a[1] for a in c), max(a[1] for a in c))
    ctx.note(A=A.name, B=B.name, box=box, own=own)
    h, h2 = g.clip(*box, crs=B), g.clip(*own)
    ctx.eq(h.size, h2.size, "size of a clip by a box on another datum")
    ctx.check(max(abs(a - b) for a, b in zip(h.transform, h2.transform)) < 1e-6 * s, "position of a clip by a box on another datum")
    ctx.arr_eq(h[:, :], h2[:, :], "values of a clip by a box on another datum")
    ctx.event("other_system")
    ctx.distinct(A.name, B.name, box)
