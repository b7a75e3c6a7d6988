"""C03 sampling returns the value of the right cell / the bilinear blend, per band, in order."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from lib.sampling import EITHER, ref_nearest, ref_bilinear, blend_ok, is_nodata
import karta
from karta.raster.grid import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from lib import systems as other_datums

RULE = ("a case is a random grid (transform with skew and negative resolution, 1-4 bands, dtype, chunking) and a set of "
        "query points inside, on cell centres, and outside, in every documented input form; distinct by grid and "
        "points; the reference recomputes each sample from the raw cell array")

DT = [np.float64, np.float64, np.float32, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32]


def mk(ctx, rng, dtypes=DT, minsize=1, skew=True, big=False):
    T = gen.rnd_transform(rng, skew=skew)
    ny, nx = rng.randrange(minsize, 12), rng.randrange(minsize, 12)
    if big:
        ny, nx = rng.randrange(250, 300), rng.randrange(250, 300)
    nb = rng.choice([1, 1, 2, 3, 4])
    dt = rng.choice(dtypes)
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
    if dt in (np.uint32, np.int32, np.int64) and rng.random() < 0.5:
        v = (v.astype(np.int64) * 9973).astype(dt)
    kw = {}
    nod = None
    if rng.random() < 0.3:
        nod = rng.choice([0, 7, 251 if dt == np.uint8 else 9999])
        kw["nodata_value"] = nod
    cls = rng.choice([None, SimpleBand, CompressedBand])
    g = RegularGrid(T, values=v if nb > 1 or rng.random() < 0.5 else v[:, :, 0], bandclass=cls, **kw)
    tol = 1e-9 + 1e-10 * gen.tscale(T, ny, nx) / gen.tcell(T)
    if tol > 1e-3:
        raise Skip
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, nodata=nod, cls=str(cls))
    return g, v, T, tol


def rnd_points(rng, T, ny, nx, n, p_out=0.2, tol=1e-6, avoid="edges"):
    """fractional indices clearly on one side of every decision boundary, and their coordinates"""
    pi, pj = [], []
    while len(pi) < n:
        if rng.random() < p_out:
            a, b = rng.uniform(-ny - 2, 2 * ny + 2), rng.uniform(-nx - 2, 2 * nx + 2)
        elif rng.random() < 0.3:
            a, b = float(rng.randrange(ny)), float(rng.randrange(nx))
        else:
            a, b = rng.uniform(-0.5, ny - 0.5), rng.uniform(-0.5, nx - 0.5)
        if avoid == "edges":       # nearest: boundaries are at half integers
            if abs((a % 1) - 0.5) < 10 * tol or abs((b % 1) - 0.5) < 10 * tol:
                continue
        else:                      # bilinear: the hull of the cell centres
            if min(abs(a), abs(a - ny + 1), abs(b), abs(b - nx + 1)) < 10 * tol:
                continue
        pi.append(a)
        pj.append(b)
    pi, pj = np.array(pi), np.array(pj)
    x = T[0] + (pj + 0.5) * T[2] + (pi + 0.5) * T[4]
    y = T[1] + (pi + 0.5) * T[3] + (pj + 0.5) * T[5]
    return pi, pj, x, y


@scenario(quick=900, thorough=10000, need={"points": 4000, "outside": 400, "multiband": 200})
def nearest(ctx):
    """nearest sampling, scalar / vector / 2-d / Point / Multipoint forms"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng)
    ny, nx, nb = v.shape
    n = rng.randrange(1, 17)
    pi, pj, x, y = rnd_points(rng, T, ny, nx, n, rng.choice([0, 0.2, 1.0]), tol)
    ref = ref_nearest(v, pi, pj, g.nodata_value)
    ctx.note(pi=pi.tolist(), pj=pj.tolist())
    got = g.sample_nearest(x, y)
    ctx.arr_eq(np.asarray(got), ref, "sample_nearest(vector)")
    ctx.arr_eq(np.asarray(g.sample_nearest(x.tolist(), y.tolist())), ref, "sample_nearest(list)")
    ctx.arr_eq(np.asarray(g.sample(x, y, method="nearest")), ref, "sample(method=nearest)")
    ctx.arr_eq(np.asarray(g.sample(x.tolist(), tuple(y.tolist()), method="nearest")), ref, "sample(list and tuple, nearest)")
    mp = karta.Multipoint(list(zip(x.tolist(), y.tolist())), crs=g.crs)
    ctx.arr_eq(np.asarray(g.sample(mp, method="nearest")), ref, "sample(Multipoint, nearest)")
    for k in range(min(n, 4)):
        z = np.atleast_1d(g.sample_nearest(float(x[k]), float(y[k])))
        z2 = np.atleast_1d(g.sample(karta.Point((float(x[k]), float(y[k])), crs=g.crs), method="nearest"))
        for zz in (z, z2):
            ctx.arr_eq(zz.astype(ref.dtype), ref[:, k], "sample_nearest(scalar)")
    for h in (2, 3, 1):
        if n % h == 0:
            got = g.sample_nearest(x.reshape(h, -1), y.reshape(h, -1))
            ctx.arr_eq(np.asarray(got), ref.reshape(nb, h, -1), "sample_nearest(2-d)")
    ctx.event("points", n)
    ctx.event("outside", int(((pi < -0.5) | (pi > ny - 0.5) | (pj < -0.5) | (pj > nx - 0.5)).sum()))
    if nb > 1:
        ctx.event("multiband")
    ctx.distinct(T, pi.tolist(), pj.tolist())


@scenario(quick=900, thorough=10000, need={"points": 4000, "outside": 400, "int": 200, "multiband": 200})
def bilinear(ctx):
    """bilinear sampling against the documented blend of the four surrounding cell centres"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng)
    ny, nx, nb = v.shape
    n = rng.randrange(1, 17)
    pi, pj, x, y = rnd_points(rng, T, ny, nx, n, rng.choice([0, 0.2, 1.0]), tol, avoid="hull") if rng.random() < 0.9 or ny < 3 or nx < 3 \
        else rnd_points(rng, T, ny, nx, 1, 0, tol, avoid="hull")
    n = len(pi)
    ref = ref_bilinear(v, pi, pj, g.nodata_value, tol)
    ctx.note(pi=pi.tolist(), pj=pj.tolist())
    scale = float(np.nanmax(np.abs(v.astype(float)))) + 1.0
    atol = scale * (8 * tol + 1e-6 * (v.dtype == np.float32))
    isint = v.dtype.kind in "iu"

    def cmp(got, k, what):
        blend_ok(ctx, got, ref[k], g.nodata_value, atol + (1.0 if isint else 0.0), what, at=(pi[k], pj[k]))

    got = np.asarray(g.sample_bilinear(x, y))
    ctx.eq(got.shape, (nb, n), "sample_bilinear(vector) shape")
    got2 = np.asarray(g.sample(x, y))
    got4 = np.asarray(g.sample_bilinear(x.tolist(), y.tolist()))
    got5 = np.asarray(g.sample(x.tolist(), tuple(y.tolist()), method="bilinear"))
    ctx.eq((got4.shape, got5.shape), ((nb, n), (nb, n)), "shape of samples at lists of positions")
    mp = karta.Multipoint(list(zip(x.tolist(), y.tolist())), crs=g.crs)
    got3 = np.asarray(g.sample(mp, method="bilinear"))
    for k in range(n):
        cmp(got[:, k], k, "sample_bilinear(vector)")
        cmp(got2[:, k], k, "sample() default method")
        cmp(got3[:, k], k, "sample(Multipoint, bilinear)")
        cmp(got4[:, k], k, "sample_bilinear(list)")
        cmp(got5[:, k], k, "sample(list and tuple, bilinear)")
    for k in range(min(n, 4)):
        z = np.asarray(g.sample_bilinear(float(x[k]), float(y[k])))
        ctx.eq(z.shape, (nb,), "sample_bilinear(scalar) shape")
        cmp(z, k, "sample_bilinear(scalar)")
        z = np.asarray(g.sample(karta.Point((float(x[k]), float(y[k])), crs=g.crs)))
        cmp(z, k, "sample(Point)")
    for h in (2, 3, 1):
        if n % h == 0:
            z = np.asarray(g.sample_bilinear(x.reshape(h, -1), y.reshape(h, -1)))
            ctx.eq(z.shape, (nb, h, n // h), "sample_bilinear(2-d) shape")
            z = z.reshape(nb, n)
            for k in range(n):
                cmp(z[:, k], k, "sample_bilinear(2-d)")
    ctx.event("points", n)
    ctx.event("outside", sum(r is None for r in ref))
    if isint:
        ctx.event("int")
    if nb > 1:
        ctx.event("multiband")
    ctx.distinct(T, pi.tolist(), pj.tolist())


@scenario(quick=24, thorough=300, need={"points": 500})
def large(ctx):
    """samples spread over several storage chunks"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng, big=True)
    ny, nx, nb = v.shape
    pi, pj, x, y = rnd_points(rng, T, ny, nx, 40, 0.1, tol)
    ctx.arr_eq(np.asarray(g.sample_nearest(x, y)), ref_nearest(v, pi, pj, g.nodata_value), "sample_nearest on a large grid")
    pi, pj, x, y = rnd_points(rng, T, ny, nx, 30, 0.1, tol, avoid="hull")
    ref = ref_bilinear(v, pi, pj, g.nodata_value, tol)
    got = np.asarray(g.sample_bilinear(x, y))
    scale = float(np.nanmax(np.abs(v.astype(float)))) + 1.0
    for k in range(30):
        blend_ok(ctx, got[:, k], ref[k], g.nodata_value, scale * (8 * tol + 1e-6) + (v.dtype.kind in "iu"), "sample_bilinear on a large grid")
    ctx.event("points", 70)
    ctx.distinct(T, pi.tolist())


@scenario(quick=250, thorough=2500, need={"profiles": 200})
def profile(ctx):
    """profile(): sample points lie on the line at the requested spacing, values are those sampled there"""
    rng = ctx.rng
    g, v, T, tol = mk(ctx, rng, dtypes=[np.float64, np.int32], minsize=3)
    ny, nx, nb = v.shape
    k = rng.randrange(2, 5)
    pi = [rng.uniform(0.2, ny - 1.2) for _ in range(k)]
    pj = [rng.uniform(0.2, nx - 1.2) for _ in range(k)]
    verts = [(T[0] + (b + 0.5) * T[2] + (a + 0.5) * T[4], T[1] + (a + 0.5) * T[3] + (b + 0.5) * T[5]) for a, b in zip(pi, pj)]
    line = karta.Line(verts, crs=g.crs)
    L = sum(((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5 for p, q in zip(verts, verts[1:]))
    kw = {}
    res = min(abs(T[2]), abs(T[3]))
    if rng.random() < 0.6:
        res = L / rng.uniform(1.3, 12)
        kw["resolution"] = res
    if L / res > 300 or res > L:
        raise Skip
    meth = rng.choice([None, "nearest", "bilinear"])
    if meth:
        kw["method"] = meth
    pts, z = g.profile(line, **kw)
    z = np.asarray(z)
    n = len(pts)
    ctx.note(verts=verts, kw=kw, n=n)
    ctx.check(abs(n - (int(L / res) + 1)) <= (1 if abs(L / res - round(L / res)) < 1e-6 else 0), "number of profile points", n=n, L=L, res=res)
    ctx.eq(z.shape, (nb, n), "profile value shape")
    X, Y = pts.coords()[:2]
    # points lie at arc length m*res
    cum = [0.0]
    for p, q in zip(verts, verts[1:]):
        cum.append(cum[-1] + ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5)
    for m in range(n):
        s = min(m * res, L)
        e = 0
        while e < len(cum) - 2 and s > cum[e + 1]:
            e += 1
        f = (s - cum[e]) / (cum[e + 1] - cum[e])
        px = verts[e][0] + f * (verts[e + 1][0] - verts[e][0])
        py = verts[e][1] + f * (verts[e + 1][1] - verts[e][1])
        ctx.check(abs(px - X[m]) + abs(py - Y[m]) <= 1e-7 * (L + gen.tscale(T, ny, nx)), "profile point %d off the line or spacing" % m,
                  got=(X[m], Y[m]), want=(px, py))
    I, J = gen.index_of(T, np.array(X), np.array(Y))
    if meth == "nearest":
        ok = (abs(I % 1 - 0.5) > 10 * tol) & (abs(J % 1 - 0.5) > 10 * tol)
        ref = ref_nearest(v, I, J, g.nodata_value)
        ctx.arr_eq(z[:, ok], ref[:, ok], "profile values (nearest)")
    else:
        ref = ref_bilinear(v, I, J, g.nodata_value, tol)
        scale = float(np.nanmax(np.abs(v.astype(float)))) + 1.0
        for m in range(n):
            if ref[m] is not None:
                blend_ok(ctx, z[:, m], ref[m], g.nodata_value, scale * 8 * tol + (v.dtype.kind in "iu"), "profile values (bilinear)")
    for b in range(nb):
        ctx.arr_eq(np.asarray(list(pts.data.getfield("band_%d" % b)), dtype=float), z[b].astype(float), "profile data field band_%d" % b)
    ctx.event("profiles")
    ctx.distinct(T, verts)


@scenario(quick=60, thorough=600, need={"points": 200})
def sample_crs(ctx):
    """coordinates given in another CRS are reprojected to the grid's CRS before sampling"""
    rng = ctx.rng
    c, lons, lats = rng.choice(gen.PROJECTED[:3])
    lon, lat = rng.uniform(*lons), rng.uniform(lats[0] + 5, lats[1] - 5)
    x0, y0 = c.project(lon, lat)
    T = (x0, y0, rng.uniform(50, 500), rng.uniform(50, 500), 0.0, 0.0)
    ny, nx = rng.randrange(3, 9), rng.randrange(3, 9)
    nb = rng.choice([1, 2])
    v = gen.rnd_grid_values(rng, ny, nx, nb, np.float64)
    g = RegularGrid(T, values=v, crs=c)
    pi, pj, x, y = rnd_points(rng, T, ny, nx, 6, 0.1, 1e-3)
    W = karta.crs.LonLatWGS84
    lo, la = c.transform(W, x, y)
    ref = ref_nearest(v, pi, pj, g.nodata_value)
    ctx.note(T=T, crs=c.name)
    ctx.arr_eq(np.asarray(g.sample(np.asarray(lo), np.asarray(la), crs=W, method="nearest")), ref, "sample(crs=) nearest")
    mp = karta.Multipoint(list(zip(map(float, lo), map(float, la))), crs=W)
    ctx.arr_eq(np.asarray(g.sample(mp, method="nearest")), ref, "sample(Multipoint in other crs)")
    z = np.atleast_1d(g.sample(karta.Point((float(lo[0]), float(la[0])), crs=W), method="nearest"))
    ctx.arr_eq(z, ref[:, 0], "sample(Point in other crs)")
    ctx.event("points", 6)
    ctx.distinct(T, pi.tolist())


@scenario(quick=600, thorough=7000, need={"points": 3000, "touching_nodata": 300, "on_hull": 500, "nonfinite": 300, "rows": 100})
def lattice(ctx):
    """grids on which positions are exact: samples on rows, columns, corners and centres of cells, beside nodata cells, and
    positions that are not finite among them"""
    rng = ctx.rng
    d = 2.0 ** rng.randrange(-3, 8)
    T = (d * rng.randrange(-40, 40), d * rng.randrange(-40, 40), d * rng.choice([1, 2, -1]), d * rng.choice([1, 4, -1]), 0.0, 0.0)
    ny, nx, nb = rng.randrange(2, 8), rng.randrange(2, 8), rng.choice([1, 1, 2, 3])
    dt = rng.choice(DT)
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
    if v.dtype.kind == "f":
        nod = rng.choice([float("nan"), -9999.0, 0.0])
        v = np.where(np.isnan(v), 1.0, v).astype(dt)
    else:
        nod = rng.choice([0, 3, 200])
    if rng.random() < 0.7:
        for _ in range(rng.randrange(1, 5)):
            v[rng.randrange(ny), rng.randrange(nx), rng.randrange(nb)] = nod
    g = RegularGrid(T, values=v, nodata_value=nod, bandclass=rng.choice([SimpleBand, CompressedBand]))
    n = rng.randrange(1, 9)
    mode = rng.choice(["row", "column", "any", "any"])
    i0, j0 = rng.choice([0, ny - 1, rng.randrange(ny)]), rng.choice([0, nx - 1, rng.randrange(nx)])
    pi, pj = [], []
    for _ in range(n):
        a = float(i0) if mode == "row" else rng.randrange(-4, 4 * ny) / 4.0
        b = float(j0) if mode == "column" else rng.randrange(-4, 4 * nx) / 4.0
        if mode == "any" and rng.random() < 0.5:
            a, b = float(rng.randrange(ny)), float(rng.randrange(nx))
        pi.append(a)
        pj.append(b)
    x = T[0] + (np.array(pj) + 0.5) * T[2]
    y = T[1] + (np.array(pi) + 0.5) * T[3]
    bad = [k for k in range(n) if rng.random() < 0.15]
    for k in bad:
        q = rng.choice([float("nan"), float("inf"), -float("inf"), 1e30, -2.0 ** 40])
        if rng.random() < 0.5:
            x[k] = q
        else:
            y[k] = q
    ref = ref_bilinear(v, pi, pj, g.nodata_value)
    near = ref_nearest(v, np.array(pi), np.array(pj), g.nodata_value)
    for k in bad:
        ref[k] = None
        near[:, k] = g.nodata_value
    ctx.note(T=T, values=v.tolist(), nodata=nod, pi=pi, pj=pj, bad=bad)
    scale = float(np.nanmax(np.abs(v.astype(float)))) + 1.0
    atol = 1e-12 * scale + (1.0 if v.dtype.kind in "iu" else 0.0)
    got = np.asarray(g.sample_bilinear(x, y))
    got2 = np.asarray(g.sample_bilinear(x.reshape(1, -1), y.reshape(1, -1)))
    got3 = np.asarray(g.sample_nearest(x, y))
    ctx.eq((got.shape, got2.shape, got3.shape), ((nb, n), (nb, 1, n), (nb, n)), "shapes of samples")
    for k in range(n):
        blend_ok(ctx, got[:, k], ref[k], g.nodata_value, atol, "bilinear at an exact position", at=(pi[k], pj[k]))
        blend_ok(ctx, got2[:, 0, k], ref[k], g.nodata_value, atol, "bilinear (2-d) at an exact position", at=(pi[k], pj[k]))
        z = np.asarray(g.sample_bilinear(float(x[k]), float(y[k])))
        ctx.eq(z.shape, (nb,), "shape of a sample")
        blend_ok(ctx, z, ref[k], g.nodata_value, atol, "bilinear (scalar) at an exact position", at=(pi[k], pj[k]))
        if k not in bad:
            if (pi[k] in (0, ny - 1)) or (pj[k] in (0, nx - 1)):
                ctx.event("on_hull")
            if pi[k] % 1 == 0 and pj[k] % 1 == 0 and 0 <= pi[k] < ny and 0 <= pj[k] < nx:
                ctx.arr_eq(got[:, k].astype(v.dtype), v[int(pi[k]), int(pj[k])], "bilinear at a centre is the cell's value")
        if k in bad or (pi[k] % 1 != 0.5 and pj[k] % 1 != 0.5):
            ctx.arr_eq(got3[:, k], near[:, k], "nearest at an exact position")
            ctx.arr_eq(np.asarray(g.sample_nearest(float(x[k]), float(y[k]))), near[:, k], "nearest (scalar) at an exact position")
    ctx.event("points", n)
    ctx.event("nonfinite", len(bad))
    if mode != "any":
        ctx.event("rows")
    ctx.distinct(T, pi, pj)


@scenario(quick=80, thorough=1200, need={"other_system": 70, "points": 300})
def other_systems(ctx):
    """positions on another datum are sampled where they are in the grid's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    geo = isinstance(A, karta.crs.GeographicalCRS)
    x0, y0 = other_datums.mover(karta.crs.LonLatWGS84, A)((9.9, 49.9))
    s = 0.03 if geo else 2500.0
    T = (x0, y0, s, s, 0.0, 0.0)
    v = gen.rnd_grid_values(rng, 8, 8, 1, np.float64)
    g = RegularGrid(T, values=v, crs=A)
    Q = [to_b(other_datums.near(rng)) for _ in range(6)]
    P = [to_a(q) for q in Q]
    I, J = gen.index_of(T, np.array([p[0] for p in P]), np.array([p[1] for p in P]))
    ok = (abs(I % 1 - 0.5) > 1e-4) & (abs(J % 1 - 0.5) > 1e-4)
    ref = ref_nearest(v, I, J, g.nodata_value)
    mp = karta.Multipoint(Q, crs=B)
    ctx.note(A=A.name, B=B.name, T=T, Q=Q)
    a = np.asarray(g.sample(mp, method="nearest"))
    ctx.arr_eq(a[:, ok], ref[:, ok], "sample(Multipoint on another datum)")
    a = np.asarray(g.sample(np.array([q[0] for q in Q]), np.array([q[1] for q in Q]), crs=B, method="nearest"))
    ctx.arr_eq(a[:, ok], ref[:, ok], "sample(crs of another datum)")
    blend = ref_bilinear(v, I, J, g.nodata_value, 1e-4)
    b = np.asarray(g.sample(mp))
    for k in range(6):
        if min(abs(I[k]), abs(I[k] - 7), abs(J[k]), abs(J[k] - 7)) > 1e-3:
            blend_ok(ctx, b[:, k], blend[k], g.nodata_value, 1e-2 * (np.nanmax(np.abs(v)) + 1), "bilinear sample on another datum")
    ctx.event("other_system")
    ctx.event("points", 6)
    ctx.distinct(A.name, B.name, Q)
