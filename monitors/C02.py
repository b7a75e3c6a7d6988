"""C02 georeferencing: one affine map relates indices and coordinates everywhere."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster.grid import RegularGrid
from lib import systems as other_datums
import karta

RULE = ("a case is a grid with random origin, resolution (both signs), skew and size, checked against the documented "
        "affine definition computed independently; distinct by (transform, size); unskewed unit grids at the origin "
        "are counted as trivial")


def mk(ctx, rng, skew=True):
    T = gen.rnd_transform(rng, skew=skew)
    ny, nx = rng.randrange(1, 14), rng.randrange(1, 14)
    if rng.random() < 0.1:
        T = {k: v for k, v in zip(("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"), T)}
        g = RegularGrid(T, values=np.zeros((ny, nx)))
        T = tuple(T[k] for k in ("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"))
    else:
        g = RegularGrid(T, values=np.zeros((ny, nx)))
    ctx.note(T=T, size=(ny, nx))
    ctx.distinct(T, ny, nx)
    return g, T, ny, nx


@scenario(quick=1500, thorough=16000, need={"grids": 1000, "skewed": 200, "negative": 200})
def coordinates(ctx):
    """center_coords, coordinates(), vertex_coords, references, extent and bbox"""
    rng = ctx.rng
    g, T, ny, nx = mk(ctx, rng)
    tol = 1e-12 * gen.tscale(T, ny, nx)
    X, Y = gen.centers(T, ny, nx)
    ctx.eq(tuple(g.transform), T, "transform")
    ctx.eq(tuple(g.size), (ny, nx), "size")
    ctx.eq((tuple(g.origin), tuple(g.resolution), tuple(g.skew)), (T[:2], T[2:4], T[4:]), "origin/resolution/skew")
    for name in ("center_coords", "coordmesh"):
        gx, gy = getattr(g, name)()
        ctx.arr_eq(gx, X, name + " x", atol=tol)
        ctx.arr_eq(gy, Y, name + " y", atol=tol)
    cg = g.coordinates()
    gx, gy = cg[:, :]
    ctx.arr_eq(gx, X, "coordinates()[:,:] x", atol=tol)
    ctx.arr_eq(gy, Y, "coordinates()[:,:] y", atol=tol)
    # scalar and sliced access of the coordinate generator
    for _ in range(4):
        i, j = rng.randrange(ny), rng.randrange(nx)
        cx, cy = cg[i, j]
        ctx.close(float(cx), X[i, j], tol, "coordinates()[i,j] x")
        ctx.close(float(cy), Y[i, j], tol, "coordinates()[i,j] y")
        a, b = sorted((rng.randrange(ny + 1), rng.randrange(ny + 1)))
        st = rng.choice([1, 1, 2, 3])
        if b > a:
            ks = slice(a, b, st) if rng.random() < 0.7 else slice(b - 1, a - 1 if a > 0 else None, -st)
            cx, cy = cg[ks, j]
            ctx.arr_eq(cx, X[ks, j], "coordinates()[slice,j] x", atol=tol)
            ctx.arr_eq(cy, Y[ks, j], "coordinates()[slice,j] y", atol=tol)
            cx, cy = cg[ks, ::-1]
            ctx.arr_eq(cx, X[ks, ::-1], "coordinates()[slice,slice] x", atol=tol)
            ctx.arr_eq(cy, Y[ks, ::-1], "coordinates()[slice,slice] y", atol=tol)
        cx, cy = cg[i, :]
        ctx.arr_eq(cx, X[i, :], "coordinates()[i,:] x", atol=tol)
        ctx.arr_eq(cy, Y[i, :], "coordinates()[i,:] y", atol=tol)
    # cell vertices
    jj, ii = np.meshgrid(np.arange(nx + 1.0), np.arange(ny + 1.0))
    VX = T[0] + jj * T[2] + ii * T[4]
    VY = T[1] + ii * T[3] + jj * T[5]
    vx, vy = g.vertex_coords()
    ctx.arr_eq(vx, VX, "vertex_coords x", atol=tol)
    ctx.arr_eq(vy, VY, "vertex_coords y", atol=tol)
    # references
    ctx.arr_eq(np.array(g.center_llref()), np.array([X[0, 0], Y[0, 0]]), "center_llref", atol=tol)
    ctx.arr_eq(np.array(g.corner_llref()), np.array(T[:2]), "corner_llref", atol=tol)
    # extents are the tight boxes about centres / edges
    ctx.arr_eq(np.array(g.extent()), np.array([X.min(), X.max(), Y.min(), Y.max()]), "extent(center)", atol=tol)
    ctx.arr_eq(np.array(g.extent(reference="edge")), np.array([VX.min(), VX.max(), VY.min(), VY.max()]), "extent(edge)", atol=tol)
    ctx.arr_eq(np.array(g.bbox()), np.array([VX.min(), VY.min(), VX.max(), VY.max()]), "bbox", atol=tol)
    ctx.event("grids")
    if T[4] or T[5]:
        ctx.event("skewed")
    if T[2] < 0 or T[3] < 0:
        ctx.event("negative")


@scenario(quick=1500, thorough=16000, need={"points": 10000, "outside": 3000, "skewed": 200})
def index_roundtrip(ctx):
    """positions() inverts the coordinate map; indices() names the nearest centre or raises IndexError"""
    rng = ctx.rng
    g, T, ny, nx = mk(ctx, rng)
    tolx = 1e-12 * gen.tscale(T, ny, nx)
    tol = 1e-9 + 64 * tolx / gen.tcell(T)
    if tol > 1e-4:
        raise Skip
    n = rng.randrange(1, 20)
    pi = np.array([rng.choice([rng.uniform(-3, ny + 3), rng.randrange(-2, ny + 2), rng.uniform(-0.5, ny - 0.5)]) for _ in range(n)], dtype=float)
    pj = np.array([rng.choice([rng.uniform(-3, nx + 3), rng.randrange(-2, nx + 2), rng.uniform(-0.5, nx - 0.5)]) for _ in range(n)], dtype=float)
    x = T[0] + (pj + 0.5) * T[2] + (pi + 0.5) * T[4]
    y = T[1] + (pi + 0.5) * T[3] + (pj + 0.5) * T[5]
    form = rng.choice([np.array, list, tuple])
    I, J = g.positions(form(x.tolist()) if form is not np.array else x, form(y.tolist()) if form is not np.array else y)
    ctx.arr_eq(I, pi, "positions() rows", atol=tol)
    ctx.arr_eq(J, pj, "positions() columns", atol=tol)
    ctx.event("points", n)
    if T[4] or T[5]:
        ctx.event("skewed")
    ok = (pi > -0.5 + 10 * tol) & (pi < ny - 0.5 - 10 * tol) & (pj > -0.5 + 10 * tol) & (pj < nx - 0.5 - 10 * tol)
    out = (pi < -0.5 - 10 * tol) | (pi > ny - 0.5 + 10 * tol) | (pj < -0.5 - 10 * tol) | (pj > nx - 0.5 + 10 * tol)
    clear = (abs(pi % 1 - 0.5) > 10 * tol) & (abs(pj % 1 - 0.5) > 10 * tol)
    for k in range(n):
        a, b = g.positions(float(x[k]), float(y[k]))
        ctx.close(float(a), pi[k], tol, "positions(scalar) row")
        ctx.close(float(b), pj[k], tol, "positions(scalar) column")
        if out[k]:
            ctx.raises(IndexError, lambda: g.indices(float(x[k]), float(y[k])), "indices() of an outside point must raise IndexError")
            ctx.event("outside")
        elif ok[k] and clear[k]:
            a, b = g.indices(float(x[k]), float(y[k]))
            ctx.eq((int(a), int(b)), (int(np.floor(pi[k] + 0.5)), int(np.floor(pj[k] + 0.5))), "indices(scalar)")
            ctx.event("inside")
    s = ok & clear
    if s.any():
        a, b = g.indices(x[s], y[s])
        ctx.arr_eq(np.asarray(a), np.floor(pi[s] + 0.5).astype(int), "indices(vector) rows")
        ctx.arr_eq(np.asarray(b), np.floor(pj[s] + 0.5).astype(int), "indices(vector) columns")
    if out.any() and n > 1:
        ctx.raises(IndexError, lambda: g.indices(x, y), "indices(vector) with an outside point must raise IndexError")
    u, w = (x, y[:-1]) if rng.random() < 0.5 else (np.append(x, 1.0), y)
    ctx.raises(ValueError, lambda: g.positions(u.tolist(), w.tolist()), "positions() of coordinates of unequal length must raise ValueError")
    ctx.raises(ValueError, lambda: g.indices(u, w), "indices() of coordinates of unequal length must raise ValueError")
    # every cell centre maps to its own index
    X, Y = g.center_coords()
    a, b = g.indices(X.ravel(), Y.ravel())
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    ctx.arr_eq(np.asarray(a), ii.ravel(), "indices(center_coords) rows")
    ctx.arr_eq(np.asarray(b), jj.ravel(), "indices(center_coords) columns")
    # very distant points
    for fx, fy in ((1e7, 0), (0, -1e7), (4294967296.0, 4294967296.0)):
        px = T[0] + fx * T[2] + fy * T[4]
        py = T[1] + fy * T[3] + fx * T[5]
        ctx.raises(IndexError, lambda: g.indices(px, py), "indices() of a distant point must raise IndexError")


@scenario(quick=120, thorough=1500, need={"crs": 80})
def coordinates_in_crs(ctx):
    """coordinates(crs), extent(crs), bbox(crs) agree with reprojecting the cell coordinates"""
    rng = ctx.rng
    c, lons, lats = rng.choice(gen.PROJECTED)
    out = rng.choice(gen.GEOGRAPHIC[:2])
    lon, lat = rng.uniform(*lons), rng.uniform(lats[0] + 3, lats[1] - 3)
    x0, y0 = c.project(lon, lat)
    dx = rng.uniform(5, 500)
    dy = rng.choice([-1, 1]) * rng.uniform(5, 500)
    sx, sy = (0.0, 0.0) if rng.random() < 0.5 else (rng.uniform(-0.5, 0.5) * dx, rng.uniform(-0.5, 0.5) * dy)
    T = (x0, y0, dx, dy, sx, sy)
    ny, nx = rng.randrange(1, 7), rng.randrange(1, 7)
    g = RegularGrid(T, values=np.zeros((ny, nx)), crs=c)
    ctx.note(T=T, size=(ny, nx), crs=c.name, out=out.name)
    X, Y = gen.centers(T, ny, nx)
    lonr = np.empty_like(X)
    latr = np.empty_like(X)
    a, b = c.transform(out, X.ravel().copy(), Y.ravel().copy())
    lonr, latr = np.asarray(a).reshape(ny, nx), np.asarray(b).reshape(ny, nx)
    if (lonr.max() - lonr.min()) > 180:
        raise Skip
    gx, gy = g.coordinates(crs=out)[:, :]
    ctx.arr_eq(np.asarray(gx), lonr, "coordinates(crs)[:,:] x", atol=1e-9)
    ctx.arr_eq(np.asarray(gy), latr, "coordinates(crs)[:,:] y", atol=1e-9)
    i, j = rng.randrange(ny), rng.randrange(nx)
    a, b = g.coordinates(crs=out)[i, j]
    ctx.close(float(a), lonr[i, j], 1e-9, "coordinates(crs)[i,j] x")
    ctx.close(float(b), latr[i, j], 1e-9, "coordinates(crs)[i,j] y")
    def box(pts):
        q = c.transform(out, np.array([p[0] for p in pts], dtype=float), np.array([p[1] for p in pts], dtype=float))
        return np.array([min(q[0]), max(q[0]), min(q[1]), max(q[1])])
    cc = box([(X[a, b], Y[a, b]) for a in (0, -1) for b in (0, -1)])
    ctx.arr_eq(np.array(g.extent(crs=out), dtype=float), cc, "extent(center, crs)", atol=1e-9)
    ec = [(T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]) for i in (0, ny) for j in (0, nx)]
    e = box(ec)
    if e[1] - e[0] < 180:
        ctx.arr_eq(np.array(g.extent(reference="edge", crs=out), dtype=float), e, "extent(edge, crs)", atol=1e-9)
        ctx.arr_eq(np.array(g.bbox(crs=out), dtype=float), e[[0, 2, 1, 3]], "bbox(crs)", atol=1e-9)
    ctx.event("crs")
    ctx.distinct(T, ny, nx, c.name)


@scenario(quick=60, thorough=800, need={"other_system": 50})
def other_systems(ctx):
    """coordinates and boxes of a grid in systems of another datum"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    geo = isinstance(A, karta.crs.GeographicalCRS)
    x0, y0 = other_datums.mover(karta.crs.LonLatWGS84, A)(other_datums.near(rng))
    s = 0.001 if geo else 100.0
    T = (x0, y0, s * rng.uniform(0.5, 3), s * rng.choice([-1, 1]) * rng.uniform(0.5, 3), 0.0, 0.0)
    ny, nx = rng.randrange(2, 6), rng.randrange(2, 6)
    g = RegularGrid(T, values=np.zeros((ny, nx)), crs=A)
    mv = other_datums.mover(A, B)
    k = 1e-8 if isinstance(B, karta.crs.GeographicalCRS) else 1e-3
    ctx.note(A=A.name, B=B.name, T=T, size=(ny, nx))
    X, Y = g.coordinates(crs=B)[:, :]
    CX, CY = gen.centers(T, ny, nx)
    for i in range(ny):
        for j in range(nx):
            w = mv((CX[i, j], CY[i, j]))
            ctx.check(abs(X[i, j] - w[0]) < k and abs(Y[i, j] - w[1]) < k, "coordinates of a cell in a system of another datum",
                      got=(X[i, j], Y[i, j]), want=w)
    c = [mv((T[0] + a * nx * T[2], T[1] + b * ny * T[3])) for a in (0, 1) for b in (0, 1)]
    want = (min(p[0] for p in c), min(p[1] for p in c), max(p[0] for p in c), max(p[1] for p in c))
    got = g.bbox(crs=B)
    ctx.check(all(abs(a - b) < k for a, b in zip(got, want)), "bbox in a system of another datum", got=got, want=want)
    ctx.event("other_system")
    ctx.distinct(A.name, B.name, T)
