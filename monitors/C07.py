"""C07 nodata: masks, statistics, apply, redefinition, arithmetic."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster.grid import RegularGrid, get_nodata
from karta.raster.band import SimpleBand, CompressedBand

RULE = ("a case is a grid with a random pattern of nodata cells (NaN or numeric marker, per band or aligned), of random "
        "type and georeferencing; masks, extremes, extent, apply, redefinition of nodata and arithmetic are compared with "
        "the recorded pattern; distinct by pattern and transform")


def mk(ctx, rng, aligned=None, nb=None, skew=True, allow_all=True):
    T = gen.rnd_transform(rng, skew=skew)
    ny, nx = rng.randrange(1, 12), rng.randrange(1, 12)
    nb = nb or rng.choice([1, 1, 2, 3])
    dt = rng.choice([np.float64, np.float64, np.float32, np.int32, np.int16, np.uint8])
    isint = np.dtype(dt).kind in "iu"
    default = rng.random() < 0.4
    if default:
        eff = float("nan") if not isint else (np.iinfo(dt).max if np.dtype(dt).kind == "u" else np.iinfo(dt).min)
        kw = {}
    else:
        eff = rng.choice([0, 1, 99] if isint else [-9999.0, 0.0, float("nan")])
        kw = {"nodata_value": eff}
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
    if eff == eff:
        v[v == eff] = 5
    p = rng.choice([0, 0.2, 0.5, 0.9, 1.0 if allow_all else 0.9])
    npr = np.random.RandomState(rng.randrange(2**31))
    if aligned is None:
        aligned = rng.random() < 0.5
    if aligned:
        m = np.repeat((npr.uniform(size=(ny, nx, 1)) < p), nb, axis=2)
    else:
        m = npr.uniform(size=(ny, nx, nb)) < p
    v[m] = eff
    g = RegularGrid(T, values=v, bandclass=rng.choice([None, SimpleBand, CompressedBand]), **kw)
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, nodata=eff, n_nodata=int(m.sum()), aligned=aligned)
    ctx.distinct(T, (ny, nx, nb), np.dtype(dt).name, eff, m.tobytes().hex())
    ctx.event("nodata_cells", int(m.sum()))
    ctx.event("data_cells", int((~m).sum()))
    return g, v, m, eff, T


@scenario(quick=1000, thorough=10000, need={"nodata_cells": 5000, "data_cells": 5000})
def masks_and_extremes(ctx):
    """data_mask, data_mask_full, min, max, minmax"""
    rng = ctx.rng
    g, v, m, eff, T = mk(ctx, rng)
    ctx.check(g.nodata_value == eff or (eff != eff and g.nodata_value != g.nodata_value), "default nodata value for the type", got=str(g.nodata_value))
    ctx.check(g.nodata == eff or (eff != eff and g.nodata != g.nodata), "nodata property")
    ctx.arr_eq(np.asarray(g.data_mask_full).astype(bool), ~m, "data_mask_full")
    ctx.arr_eq(np.asarray(g.data_mask).astype(bool), (~m).all(axis=2), "data_mask")
    d = v[~m]
    mn, mx = g.minmax()
    if len(d):
        ctx.eq((mn, mx), (d.min(), d.max()), "minmax over data cells")
    else:
        ctx.check(mn != mn and mx != mx, "minmax of an empty grid is NaN")
    full = (~m).all(axis=2)
    if (m.any(axis=2) == m.all(axis=2)).all():
        d = v[full]
        if d.size:
            ctx.eq(g.max(), d.max(), "max over data cells")
            ctx.eq(g.min(), d.min(), "min over data cells")
        else:
            ctx.check(g.max() != g.max() and g.min() != g.min(), "max/min of an empty grid is NaN")


@scenario(quick=700, thorough=7000, need={"extents": 400, "skewed": 100, "negative": 100, "multiband": 200})
def data_extent(ctx):
    """data_extent / data_bbox are the tight box about the data cells' centres / edges, of any band"""
    rng = ctx.rng
    g, v, m, eff, T = mk(ctx, rng)
    ny, nx, nb = v.shape
    ok = ~m.all(axis=2)
    if not ok.any():
        for ref in ("center", "edge"):
            got = g.data_extent(reference=ref)
            ctx.check(not (got[0] <= got[1]) and not (got[2] <= got[3]), "data_extent of a grid without data is empty", got=str(got))
        return
    X, Y = gen.centers(T, ny, nx)
    tol = 1e-11 * gen.tscale(T, ny, nx)
    want = np.array([X[ok].min(), X[ok].max(), Y[ok].min(), Y[ok].max()])
    got = g.data_extent()
    ctx.check(all(np.ndim(a) == 0 for a in got), "data_extent gives numbers")
    ctx.arr_eq(np.array(got, dtype=float), want, "data_extent(center)", atol=tol)
    hx, hy = 0.5 * (abs(T[2]) + abs(T[4])), 0.5 * (abs(T[3]) + abs(T[5]))
    want = np.array([X[ok].min() - hx, X[ok].max() + hx, Y[ok].min() - hy, Y[ok].max() + hy])
    ctx.arr_eq(np.array(g.data_extent(reference="edge"), dtype=float), want, "data_extent(edge)", atol=tol)
    ctx.arr_eq(np.array(g.data_bbox(), dtype=float), want[[0, 2, 1, 3]], "data_bbox", atol=tol)
    ctx.event("extents")
    if nb > 1:
        ctx.event("multiband")
    if T[4] or T[5]:
        ctx.event("skewed")
    if T[2] < 0 or T[3] < 0:
        ctx.event("negative")


@scenario(quick=40, thorough=400, need={"other crs": 30})
def data_extent_crs(ctx):
    """data_extent in another coordinate system is the tight box about the data cells' positions there"""
    rng = ctx.rng
    crs, (l0, l1), (b0, b1) = rng.choice(gen.PROJECTED)
    ny, nx = rng.randrange(1, 9), rng.randrange(1, 9)
    x, y = crs.project(rng.uniform(l0 + 2, l1 - 2), rng.uniform(b0 + 3, b1 - 3))
    T = (float(x), float(y), rng.uniform(100, 5000), rng.choice([-1, 1]) * rng.uniform(100, 5000), rng.choice([0.0, 40.0]), rng.choice([0.0, -30.0]))
    v = np.full((ny, nx), -1.0)
    k = rng.randrange(1, 4)
    for _ in range(k): v[rng.randrange(ny), rng.randrange(nx)] = 5.0
    g = RegularGrid(T, values=v, crs=crs, nodata_value=-1.0)
    out = gen.kcrs.LonLatWGS84
    i, j = np.nonzero(v == 5.0)
    P = {"center": [(a + 0.5, b + 0.5) for a, b in zip(i, j)], "edge": [(a + c, b + d) for a, b in zip(i, j) for c in (0, 1) for d in (0, 1)]}
    for ref in P:
        a, b = np.array(P[ref], dtype=float).T
        X, Y = crs.transform(out, T[0] + b * T[2] + a * T[4], T[1] + a * T[3] + b * T[5])
        ctx.arr_eq(np.array(g.data_extent(reference=ref, crs=out), dtype=float), np.array([min(X), max(X), min(Y), max(Y)]),
                   "data_extent(%s, crs)" % ref, atol=1e-9)
    ctx.event("other crs")
    ctx.distinct(T, v.tobytes().hex())


@scenario(quick=700, thorough=7000, need={"apply": 500, "inplace": 150})
def apply(ctx):
    """apply() maps data cells only, and touches the source only when asked to"""
    rng = ctx.rng
    g, v, m, eff, T = mk(ctx, rng)
    fn = rng.choice([lambda a: a + 1, lambda a: a // 2, lambda a: a * 0 + 3, lambda a: a[:].copy(), lambda a: -a])
    if np.dtype(v.dtype).kind == "u" or v.dtype == np.int16:
        fn = lambda a: a // 2
    want = v.copy()
    seen = []
    def f(a):
        seen.append(np.array(a))
        return fn(a)
    want[~m] = fn(v[~m])
    inplace = rng.random() < 0.4
    out = g.apply(f, inplace=True) if inplace else g.apply(f)
    vals = np.concatenate([s.ravel() for s in seen]) if seen else np.array([])
    ctx.eq(sorted(vals.tolist()), sorted(v[~m].tolist()), "apply: the function must see exactly the data cells")
    ctx.arr_eq(out[:, :, :], want, "apply: data cells mapped, nodata kept")
    if inplace:
        ctx.check(out is g, "apply(inplace=True) returns the grid itself")
        ctx.event("inplace")
    else:
        ctx.arr_eq(g[:, :, :], v, "apply changed the source")
    ctx.check(out.transform == g.transform and out.crs == g.crs, "apply keeps georeferencing")
    ctx.event("apply")


@scenario(quick=700, thorough=7000, need={"set": 400})
def set_nodata(ctx):
    """set_nodata_value re-marks exactly the nodata cells"""
    rng = ctx.rng
    g, v, m, eff, T = mk(ctx, rng)
    isint = v.dtype.kind in "iu"
    for _ in range(rng.randrange(1, 4)):
        new = rng.choice([3, 77, 100] if isint else [3.0, -1e4, float("nan"), 0.0])
        if new == new and (v[~m] == new).any():
            continue
        r = g.set_nodata_value(new)
        ctx.check(r is g, "set_nodata_value returns the grid")
        ctx.check(g.nodata_value == new or (new != new and g.nodata_value != g.nodata_value), "new nodata value")
        ctx.arr_eq(np.asarray(g.data_mask_full).astype(bool), ~m, "set_nodata_value: mask must not change")
        w = v.copy()
        w[m] = new
        ctx.arr_eq(g[:, :, :], w, "set_nodata_value: values")
        ctx.event("set")


@scenario(quick=500, thorough=5000, need={"sums": 300, "numeric nodata": 150})
def arithmetic(ctx):
    """grid + grid and grid - grid act cell by cell on data; grids of other structure are refused"""
    rng = ctx.rng
    T = gen.rnd_transform(rng)
    ny, nx, nb = rng.randrange(1, 10), rng.randrange(1, 10), rng.choice([1, 1, 2, 3])
    crs = rng.choice([None, gen.UTM7, gen.kcrs.LonLatWGS84])
    def operand():
        dt = rng.choice([np.float64, np.float64, np.float32, np.int32])
        v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
        nd = rng.choice([None, None, -9999, 0, 77] if dt == np.int32 else [None, None, -9999.0, 0.0, 1e6, float("nan")])
        eff = nd if nd is not None else (np.iinfo(dt).min if dt == np.int32 else float("nan"))
        if eff == eff:
            v[v == eff] = 5
        m = np.random.RandomState(rng.randrange(2**31)).uniform(size=v.shape) < rng.choice([0, 0.1, 0.4])
        v[m] = eff
        kw = {} if nd is None else {"nodata_value": nd}
        if crs is not None:
            kw["crs"] = crs
        if eff == eff and m.any():
            ctx.event("numeric nodata")
        return RegularGrid(T, values=v, **kw), v.copy(), m, eff
    (A, a, ma, na), (B, b, mb, nb_) = operand(), operand()
    s, d = A + B, A - B
    ctx.note(T=T, size=(ny, nx, nb), dtypes=(a.dtype.name, b.dtype.name), nodata=(na, nb_), patterns=(int(ma.sum()), int(mb.sum())))
    for r, w, nm in ((s, a + b, "sum"), (d, a - b, "difference")):
        ctx.eq(r.values[:, :, :].dtype, w.dtype, nm + ": type of the values")
        w[ma | mb] = na
        ctx.arr_eq(r[:, :, :], w, nm + ": cell by cell, without data where either grid has none")
        ctx.check(r.nodata_value == na or (na != na and r.nodata_value != r.nodata_value), nm + ": nodata value of the result", got=str(r.nodata_value))
        ctx.check(r.crs == A.crs, nm + ": coordinate system")
    ctx.arr_eq(B[:, :, :], b, "operand changed")
    ctx.check(tuple(s.transform) == tuple(T) and tuple(d.transform) == tuple(T), "georeferencing of the result")
    ctx.arr_eq(A[:, :, :], a, "operand changed")
    T2 = list(T)
    T2[rng.randrange(6)] += rng.choice([1.0, 0.25])
    C = RegularGrid(T2, values=b)
    ctx.raises(ValueError, lambda: A + C, "adding differently placed grids must raise ValueError")
    ctx.raises(ValueError, lambda: A - C, "subtracting differently placed grids must raise ValueError")
    D = RegularGrid(T, values=np.ones((ny + 1, nx)))
    ctx.raises(ValueError, lambda: A + D, "adding differently sized grids must raise ValueError")
    ctx.raises(ValueError, lambda: A - D, "subtracting differently sized grids must raise ValueError")
    ctx.event("sums")
    ctx.distinct(T, (ny, nx, nb), a.tobytes().hex()[:64])


@scenario(quick=10, thorough=10, need={"types": 9})
def defaults(ctx):
    """default nodata value by type"""
    types = [np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16, np.int32, np.int64, np.float32, np.float64]
    t = types[ctx.index]
    n = get_nodata(t)
    if np.dtype(t).kind == "f":
        ctx.check(n != n, "NaN for floats")
    elif np.dtype(t).kind == "u":
        ctx.eq(int(n), int(np.iinfo(t).max), "largest unsigned")
    else:
        ctx.eq(int(n), int(np.iinfo(t).min), "smallest signed")
    ctx.event("types")
    ctx.distinct(t.__name__)
    ctx.note(t=t.__name__, n=str(n))
