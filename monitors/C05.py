"""C05 resample(): every output cell is the source's sample at its own centre."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from lib.sampling import ref_bilinear, blend_ok, is_nodata
from karta.raster.grid import RegularGrid

RULE = ("a case is a random unskewed grid (1-3 bands, resolution of either sign) and a target resolution, finer or "
        "coarser; each output cell is compared with an independent nearest / bilinear sample of the source array at the "
        "cell's coordinates; distinct by transform, size and target")


@scenario(quick=900, thorough=9000, need={"nearest": 300, "linear": 300, "cells": 20000, "multiband": 100})
def resample(ctx):
    """nearest and linear resampling"""
    rng = ctx.rng
    exact = rng.random() < 0.3
    skew = not exact and rng.random() < 0.3
    T = gen.rnd_transform(rng, skew=skew)
    skew = skew and (T[4] != 0 or T[5] != 0)
    if exact:           # positions without rounding
        d = 2.0 ** rng.randrange(-3, 6)
        T = (d * rng.randrange(-30, 30), d * rng.randrange(-30, 30), d * rng.choice([1, -1, 2]), d * rng.choice([1, -1, 4]), 0.0, 0.0)
    ny, nx = rng.randrange(1, 12), rng.randrange(1, 12)
    nb = rng.choice([1, 1, 2, 3])
    dt = rng.choice([np.float64, np.float64, np.int32, np.uint8])
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt)
    nod = rng.choice([None, 0, 99])
    g = RegularGrid(T, values=v, nodata_value=nod)
    tol = 1e-9 + 1e-10 * gen.tscale(T, ny, nx) / gen.tcell(T)
    if tol > 1e-4:
        raise Skip
    fx, fy = [rng.choice([0.5, 2.0, 1.0, 3.0, 0.25] + ([] if exact else [rng.uniform(0.2, 4)])) for _ in range(2)]
    dx, dy = abs(T[2]) * fx, abs(T[3]) * fy
    method = rng.choice(["nearest", "linear", None])
    ctx.note(T=T, size=(ny, nx, nb), dtype=np.dtype(dt).name, dx=dx, dy=dy, method=method)
    keep = g[:, :, :]
    new = g.resample(dx, dy) if method is None else g.resample(dx, dy, method=method)
    ctx.arr_eq(g[:, :, :], keep, "resample changed the source")
    ctx.eq(tuple(new.transform[2:4]), (dx, dy), "resample: resolution")
    ctx.eq(new.nbands, nb, "resample: bands")
    ctx.check(new.crs == g.crs, "resample: crs")
    ctx.check(new.nodata_value == g.nodata_value or (new.nodata_value != new.nodata_value and g.nodata_value != g.nodata_value), "resample: nodata")
    ctx.check(new.values.dtype == g.values.dtype or method == "linear", "resample(nearest): data type", got=str(new.values.dtype))
    X, Y = gen.centers(T, ny, nx)
    my, mx = new.size
    NX, NY = gen.centers(new.transform, my, mx)
    cell = max(abs(T[2]), abs(T[3]))
    if not skew:
        ctx.close(float(NX.min()), float(X.min()), 100 * tol * cell, "resample: first column centre is anchored")
        ctx.close(float(NY.min()), float(Y.min()), 100 * tol * cell, "resample: first row centre is anchored")
    for last, hi, d in ((NX.max(), X.max(), dx), (NY.max(), Y.max(), dy)) if not skew else ():
        ctx.check(last <= hi + 100 * tol * cell and last > hi - d - 100 * tol * cell, "resample: coverage of the source extent", last=float(last), hi=float(hi), d=d)
    I, J = gen.index_of(T, NX, NY)
    out = new[:, :, :]
    ctx.eq(out.shape, (my, mx, nb), "resample: shape")
    nodata = g.nodata_value
    isnd = (lambda z: z != z) if nodata != nodata else (lambda z: z == nodata)
    scale = float(np.abs(v.astype(float)).max()) + 1
    if method in (None, "nearest"):
        clear = (abs(I % 1 - 0.5) > 20 * tol) & (abs(J % 1 - 0.5) > 20 * tol)
        ri, rj = np.floor(I + 0.5).astype(int), np.floor(J + 0.5).astype(int)
        inb = (ri >= 0) & (ri < ny) & (rj >= 0) & (rj < nx) & clear
        ctx.arr_eq(out[inb], v[ri[inb], rj[inb]], "resample(nearest): cell is not the nearest source value")
        off = clear & ~((ri >= 0) & (ri < ny) & (rj >= 0) & (rj < nx))
        ctx.check(bool(np.all(is_nodata(out[off], nodata))), "resample(nearest): outside of the source is nodata")
        ctx.event("outside", int(off.sum()))
        ctx.event("nearest")
    else:
        onb = 0
        ref = ref_bilinear(v, I.ravel(), J.ravel(), nodata, 0 if exact else 20 * tol)
        for i in range(my):
            for j in range(mx):
                a, b = float(I[i, j]), float(J[i, j])
                want = ref[i * mx + j]
                # rounding may put a point of the source's outermost centres just outside
                border = not exact and min(abs(a), abs(a - ny + 1), abs(b), abs(b - nx + 1)) < 20 * tol
                if border and ny > 1 and nx > 1 and (want is None or all(isnd(z) for z in out[i, j])):
                    onb += 1
                    continue
                blend_ok(ctx, out[i, j], want, nodata, scale * (20 * tol + (1e-12 if exact else 0)) + (v.dtype.kind in "iu"),
                         "resample(linear): cell is not the bilinear blend")
        ctx.event("border_nodata", onb)
        ctx.event("linear")
    ctx.event("cells", my * mx)
    if nb > 1:
        ctx.event("multiband")
    ctx.distinct(T, (ny, nx, nb), dx, dy, method)


@scenario(quick=40, thorough=400, need={"invalid": 30})
def invalid(ctx):
    """non-positive resolution is refused with ValueError, unknown methods with NotImplementedError"""
    rng = ctx.rng
    g = RegularGrid((0, 0, 1, 1, 0, 0), values=np.ones((4, 5)))
    a, b = rng.choice([(0, 1), (1, 0), (-1, 1), (1, -2.5), (-1, -1)])
    ctx.raises(ValueError, lambda: g.resample(a, b), "non-positive resolution must raise ValueError")
    ctx.raises(NotImplementedError, lambda: g.resample(1, 1, method="cubic%d" % rng.randrange(9)), "unknown method")
    ctx.event("invalid")
    ctx.note(a=a, b=b)
    ctx.distinct(a, b)
