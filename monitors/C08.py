"""C08 polygon masks keep what is inside, blank what is outside (up to ~1.5 cells at the boundary)."""
import numpy as np
from lib.mon import scenario, Skip, Violation
from lib import gen
import karta
from karta.raster.grid import RegularGrid

RULE = ("a case is a grid of 10-45 cells a side with rectangular cells and one or several simple polygons in clockwise or "
        "counter-clockwise order, inside, straddling or off the grid; every cell further than 1.6 cells from a boundary is "
        "compared with a winding-number reference; distinct by transform, size and polygon vertices")
BAND = 1.6


def classify(T, ny, nx, rings):
    """+1 inside, -1 outside, 0 within BAND cells of a boundary; per cell, union of rings"""
    best = np.full((ny, nx), -1)
    for ring in rings:
        # to index space (cells): centre of cell (i,j) is (j+.5, i+.5)
        D = T[2] * T[3] - T[4] * T[5]
        q = [((T[3] * (x - T[0]) - T[4] * (y - T[1])) / D, (T[2] * (y - T[1]) - T[5] * (x - T[0])) / D) for x, y in ring]
        C = np.empty((ny, nx), dtype=int)
        jj, ii = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
        d2 = np.full((ny, nx), np.inf)
        w = np.zeros((ny, nx), dtype=int)
        n = len(q)
        for k in range(n):
            (x0, y0), (x1, y1) = q[k], q[(k + 1) % n]
            dx, dy = x1 - x0, y1 - y0
            L = dx * dx + dy * dy
            t = np.clip(((jj - x0) * dx + (ii - y0) * dy) / L, 0, 1) if L else 0.0
            d2 = np.minimum(d2, (jj - x0 - t * dx) ** 2 + (ii - y0 - t * dy) ** 2)
            cr = dx * (ii - y0) - (jj - x0) * dy
            w += ((y0 <= ii) & (y1 > ii) & (cr > 0)).astype(int)
            w -= ((y0 > ii) & (y1 <= ii) & (cr < 0)).astype(int)
        C = np.where(w != 0, 1, -1)
        C[d2 < BAND * BAND] = 0
        best = np.where((best == 1) | (C == 1), 1, np.where((best == 0) | (C == 0), 0, -1))
    return best


def mk(ctx, rng, negative=False, skew=False):
    ny, nx = rng.randrange(10, 46), rng.randrange(10, 46)
    dx = rng.choice([1.0, 0.1, 30.0, rng.uniform(0.2, 5)])
    dy = dx if rng.random() < 0.4 else dx * rng.choice([0.5, 2.0, 3.0, rng.uniform(0.3, 3)])
    if negative:
        k = rng.choice(["x", "y", "xy"])
        if "x" in k:
            dx = -dx
        if "y" in k:
            dy = -dy
    T = (gen.rnd_num(rng, 100), gen.rnd_num(rng, 100), dx, dy, 0.0, 0.0)
    if skew:
        while True:
            T = T[:2] + (rng.choice([dx, -dx, 0.0] if rng.random() < 0.3 else [dx]), rng.choice([dy, -dy, 0.0] if rng.random() < 0.3 else [dy]),
                         rng.choice([0.0, dx * rng.uniform(-1, 1)]), rng.choice([0.0, dy * rng.uniform(-1, 1), dy]))
            if (T[4] or T[5]) and abs(T[2] * T[3] - T[4] * T[5]) > 0.2 * dx * dy:
                break
    crs = rng.choice([karta.crs.Cartesian, karta.crs.Cartesian, gen.UTM7])
    if crs == gen.UTM7:
        T = (T[0] + 5e5, T[1] + 7e6) + T[2:]
    nb = rng.choice([1, 1, 2])
    dt = rng.choice([np.float64, np.float64, np.int16])
    v = np.arange(1, ny * nx * nb + 1).reshape(ny, nx, nb).astype(dt)
    g = RegularGrid(T, values=v, nodata_value=rng.choice([None, -1]),
                    crs=crs)
    return g, v, T


def rnd_ring(rng, T, ny, nx):
    """simple ring given in cell units, turned into coordinates"""
    r = rng.uniform(5, max(ny, nx))
    q = gen.star_polygon(rng, rng.uniform(-0.2, 1.2) * nx, rng.uniform(-0.2, 1.2) * ny, r)
    if rng.random() < 0.15:   # axis-parallel box
        x0, y0 = rng.uniform(-5, nx), rng.uniform(-5, ny)
        x1, y1 = x0 + rng.uniform(5, 30), y0 + rng.uniform(5, 30)
        q = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
        if rng.random() < 0.5:
            q = q[::-1]
        if rng.random() < 0.3:
            q = [(float(round(a)), float(round(b))) for a, b in q]
    return [(T[0] + a * T[2] + b * T[4], T[1] + b * T[3] + a * T[5]) for a, b in q]


def compare(ctx, out, v, nodata, C, what):
    """None if the mask agrees with C away from the boundary"""
    kept = np.all(out == v, axis=2)
    blank = np.all(out == nodata, axis=2) if nodata == nodata else np.all(out != out, axis=2)
    if not (kept | blank).all():
        return what + ": a cell is neither kept nor nodata"
    if (~kept & (C == 1)).any():
        return what + ": a cell well inside the polygon was blanked"
    if (~blank & (C == -1)).any():
        return what + ": a cell well outside the polygons was kept"
    return None


def form(rng, rings, crs=karta.crs.Cartesian):
    out = crs
    if crs == gen.UTM7 and rng.random() < 0.5:
        # the same rings in longitude and latitude
        out = karta.crs.LonLatWGS84
        rings = [list(zip(*[np.asarray(a).tolist() for a in crs.transform(out, *zip(*r))])) for r in rings]
    polys = [karta.Polygon(r, crs=out) for r in rings]
    if len(polys) == 1:
        return rng.choice([polys[0], [polys[0]], karta.Multipolygon([[r] for r in rings], crs=out)])
    k = rng.random()
    if k < 0.5:
        return polys
    if k < 0.8:
        return karta.Multipolygon([[r] for r in rings], crs=out)
    return [polys[0], karta.Multipolygon([[r] for r in rings[1:]], crs=out)]


@scenario(quick=420, thorough=4000, need={"inside": 10000, "outside": 10000, "inplace": 50, "several": 50, "other system": 15})
def mask(ctx):
    """mask_by_poly with positive resolution"""
    rng = ctx.rng
    g, v, T = mk(ctx, rng)
    ny, nx, nb = v.shape
    rings = [rnd_ring(rng, T, ny, nx) for _ in range(rng.choice([1, 1, 2, 3]))]
    C = classify(T, ny, nx, rings)
    ctx.note(T=T, size=(ny, nx, nb), rings=rings)
    arg = form(rng, rings, g.crs)
    if getattr(arg, "crs", g.crs) != g.crs:
        ctx.event("other system")
    if rng.random() < 0.3:
        out = g.mask_by_poly(arg, inplace=True)
        ctx.check(out is g, "mask_by_poly(inplace=True) returns the grid itself")
        ctx.event("inplace")
    else:
        out = g.mask_by_poly(arg)
        ctx.arr_eq(g[:, :, :], v, "mask_by_poly changed the source")
    ctx.check(tuple(out.transform) == T and tuple(out.size) == (ny, nx) and out.nbands == nb, "mask_by_poly keeps structure")
    nd = g.nodata_value
    ctx.check(out.nodata_value == nd or (nd != nd and out.nodata_value != out.nodata_value), "mask_by_poly keeps the nodata value", got=str(out.nodata_value))
    ctx.check(out.crs == g.crs and out.values.dtype == v.dtype, "mask_by_poly keeps coordinate system and data type")
    msg = compare(ctx, out[:, :, :], v, g.nodata_value, C, "mask_by_poly")
    ctx.check(msg is None, msg or "")
    ctx.event("inside", int((C == 1).sum()))
    ctx.event("outside", int((C == -1).sum()))
    if len(rings) > 1:
        ctx.event("several")
    ctx.distinct(T, (ny, nx), rings)


@scenario(quick=160, thorough=1500, need={"inside": 4000, "outside": 4000, "turned over": 15})
def mask_skewed(ctx):
    """the same on skewed and rotated grids, also with rows or columns reversed"""
    rng = ctx.rng
    g, v, T = mk(ctx, rng, skew=True)
    ny, nx, nb = v.shape
    rings = [rnd_ring(rng, T, ny, nx) for _ in range(rng.choice([1, 1, 2]))]
    C = classify(T, ny, nx, rings)
    ctx.note(T=T, size=(ny, nx, nb), rings=rings)
    arg = form(rng, rings, g.crs)
    inplace = rng.random() < 0.3
    out = g.mask_by_poly(arg, inplace=inplace)
    if not inplace:
        ctx.arr_eq(g[:, :, :], v, "mask_by_poly changed the source")
    ctx.check(tuple(out.transform) == T and tuple(out.size) == (ny, nx) and out.nbands == nb and out.crs == g.crs, "mask_by_poly keeps structure")
    msg = compare(ctx, out[:, :, :], v, g.nodata_value, C, "mask_by_poly on a skewed grid")
    ctx.check(msg is None, msg or "")
    ctx.event("inside", int((C == 1).sum()))
    ctx.event("outside", int((C == -1).sum()))
    if T[2] * T[3] < T[4] * T[5]: ctx.event("turned over")
    ctx.distinct(T, (ny, nx), rings)


@scenario(quick=120, thorough=1000, need={"inside": 1000})
def mask_negative_resolution(ctx):
    """the same with a negative resolution (rows from north to south, as in most geotiffs)"""
    rng = ctx.rng
    g, v, T = mk(ctx, rng, negative=True)
    ny, nx, nb = v.shape
    rings = [rnd_ring(rng, T, ny, nx)]
    C = classify(T, ny, nx, rings)
    ctx.note(T=T, size=(ny, nx, nb), rings=rings)
    ctx.event("inside", int((C == 1).sum()))
    ctx.distinct(T, (ny, nx), rings)
    out = g.mask_by_poly(karta.Polygon(rings[0], crs=g.crs))[:, :, :]
    msg = compare(ctx, out, v, g.nodata_value, C, "mask_by_poly")
    if msg is None:
        return
    # the listed defect: the mask comes out mirrored along the axes of negative resolution, and only that
    Cm = C[::-1] if T[3] < 0 else C
    Cm = Cm[:, ::-1] if T[2] < 0 else Cm
    if compare(ctx, out, v, g.nodata_value, Cm, "mask_by_poly") is None:
        raise Violation("mask mirrored on a grid with negative resolution", "KF-mask-mirrored")
    ctx.check(False, msg)
