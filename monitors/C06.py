"""C06 raster mosaics: union extent, weighted mean of the grids that have data."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster import merge
from karta.raster.grid import RegularGrid

RULE = ("a case is 1-5 grids offset by integer numbers of cells (positive or negative resolution, nodata holes, 1-3 "
        "bands, integer and float types, optional weights); the oracle accumulates the weighted mean per cell in exact "
        "per-cell lists; distinct by offsets, sizes, weights")


@scenario(quick=900, thorough=9000, need={"merges": 500, "overlap": 1000, "holes": 200, "weighted": 200, "int": 150, "mixed types": 100, "band holes": 200})
def mosaic(ctx):
    """merge() against a per-cell weighted mean"""
    rng = ctx.rng
    T = list(gen.rnd_transform(rng, skew=False))
    if abs(T[0]) + abs(T[1]) > 1e6 * min(abs(T[2]), abs(T[3])):
        raise Skip
    k = rng.randrange(1, 6)
    nb = rng.choice([1, 1, 2, 3])
    dt = rng.choice([np.float64, np.float64, np.float32, np.int32, np.int16, np.uint8])
    dts = [dt] * k
    if rng.random() < 0.3:
        dts = [rng.choice([np.float64, np.float32, np.int32, np.int16, np.uint8]) for _ in range(k)]
    if len(set(dts)) > 1:
        ctx.event("mixed types")
    crs = rng.choice([gen.kcrs.Cartesian, gen.UTM7])
    allint = all(np.dtype(t).kind in "iu" for t in dts)
    ref = {}
    grids, offs = [], []
    weights = None
    if rng.random() < 0.5:
        weights = [rng.choice([1, 2, 3, 0.5, rng.uniform(0.1, 10)]) for _ in range(k)]
        ctx.event("weighted")
    for g in range(k):
        dt = dts[g]
        isint = np.dtype(dt).kind in "iu"
        ny, nx = rng.randrange(1, 8), rng.randrange(1, 8)
        oi, oj = (0, 0) if g == 0 else (rng.randrange(-9, 10), rng.randrange(-9, 10))
        nod = rng.choice([None, 0, 9]) if isint else rng.choice([None, -9999.0])
        v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
        eff = nod if nod is not None else (float("nan") if not isint else (np.iinfo(dt).max if np.dtype(dt).kind == "u" else np.iinfo(dt).min))
        if nod is not None:
            v[v == nod] = nod + 1
        if rng.random() < 0.5:
            m = np.random.RandomState(rng.randrange(2**31)).uniform(size=(ny, nx)) < 0.3
            if nb > 1 and rng.random() < 0.4:
                m = np.random.RandomState(rng.randrange(2**31)).uniform(size=(ny, nx, nb)) < 0.3
                ctx.event("band holes", int(m.sum()))
            v[m] = eff
            ctx.event("holes", int(m.sum()))
        t = (T[0] + oj * T[2], T[1] + oi * T[3]) + tuple(T[2:])
        grids.append(RegularGrid(t, values=v, nodata_value=nod, crs=crs))
        offs.append((oi, oj, ny, nx))
        w = 1.0 if weights is None else weights[g]
        for i in range(ny):
            for j in range(nx):
                isnd = (v[i, j] != v[i, j]) if eff != eff else (v[i, j] == eff)
                ref.setdefault((i + oi, j + oj), []).append((v[i, j].astype(float), w, isnd))
    ctx.note(T=T, offs=offs, nb=nb, dtypes=[np.dtype(t).name for t in dts], weights=weights)
    keep = [g[:, :, :] for g in grids]
    out = merge(grids) if weights is None else merge(grids, weights=weights)
    for g, kp in zip(grids, keep):
        ctx.arr_eq(g[:, :, :], kp, "merge changed an input")
    i0, j0 = min(o[0] for o in offs), min(o[1] for o in offs)
    i1, j1 = max(o[0] + o[2] for o in offs), max(o[1] + o[3] for o in offs)
    ctx.eq(tuple(out.size), (i1 - i0, j1 - j0), "merge: size of the union")
    sc = gen.tscale(T, 20, 20)
    ctx.close(out.transform[0], T[0] + j0 * T[2], 1e-9 * sc, "merge: origin x")
    ctx.close(out.transform[1], T[1] + i0 * T[3], 1e-9 * sc, "merge: origin y")
    ctx.eq(tuple(out.transform[2:]), tuple(T[2:]), "merge: resolution")
    ctx.eq(out.nbands, nb, "merge: bands")
    o = out[:, :, :]
    nd = out.nodata_value
    nd0 = grids[0].nodata_value
    ctx.check(nd == nd0 or (nd != nd and nd0 != nd0), "merge: nodata value of the first grid")
    ctx.check(out.crs == crs, "merge: coordinate system")
    tolr = 1e-5 if np.float32 in dts else 1e-6
    isint = allint
    for i in range(i0, i1):
        for j in range(j0, j1):
            got = o[i - i0, j - j0]
            L = ref.get((i, j), [])
            for k_ in range(nb):
                # a cell that lacks some bands only may be left out as a whole or band by band
                ok, wants = False, []
                for M in ([(a[k_], w) for a, w, n in L if not n.any()], [(a[k_], w) for a, w, n in L if not n[k_]]):
                    x = got[k_]
                    if not M:
                        wants.append("nodata")
                        ok = ok or bool((x != x) if nd != nd else (x == nd))
                        continue
                    want = sum(a * w for a, w in M) / sum(w for a, w in M)
                    tol = tolr * (1 + max(abs(a) for a, w in M))
                    if len(M) > 1:
                        ctx.event("overlap")
                        tol += 1.0 if isint else 0.0
                    elif isint:
                        tol = 1e-6 * (1 + abs(want))
                    wants.append(want)
                    ok = ok or bool(abs(float(x) - want) <= tol)
                ctx.check(ok, "merge: cell is not the weighted mean of the data there", at=(i, j, k_), got=float(got[k_]), want=wants)
    ctx.event("merges")
    if isint:
        ctx.event("int")
    ctx.distinct(tuple(T), offs, nb, weights)


@scenario(quick=150, thorough=1000, need={"refused": 100})
def refused(ctx):
    """inconsistent grids are refused, never silently mosaicked"""
    rng = ctx.rng
    a = RegularGrid((0, 0, 2, 3, 0, 0), values=np.ones((4, 5)))
    kind = rng.choice(["res", "offset", "offsety", "bands"])
    if kind == "res":
        b = RegularGrid((0, 0, 2 * rng.choice([1.5, 2]), 3, 0, 0), values=np.ones((4, 5)))
    elif kind == "offset":
        b = RegularGrid((2 * rng.uniform(0.05, 0.95) + 2 * rng.randrange(-3, 4), 0, 2, 3, 0, 0), values=np.ones((4, 5)))
    elif kind == "offsety":
        b = RegularGrid((0, 3 * rng.uniform(0.05, 0.95) + 3 * rng.randrange(-3, 4), 2, 3, 0, 0), values=np.ones((4, 5)))
    else:
        b = RegularGrid((0, 0, 2, 3, 0, 0), values=np.ones((4, 5, 2)))
    gs = [a, b]
    if rng.random() < 0.5:
        gs = [a, RegularGrid((4, 3, 2, 3, 0, 0), values=np.ones((4, 5))), b]
    ctx.note(kind=kind, t=b.transform)
    ctx.raises(Exception, lambda: merge(gs), "merge accepted inconsistent grids (%s)" % kind)
    ctx.event("refused")
    ctx.distinct(kind, b.transform, len(gs))
