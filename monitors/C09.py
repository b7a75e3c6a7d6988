"""C09 gridpoints(): cell averages, conservation of points."""
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta.raster import gridpoints
import karta

RULE = ("a case is 1-400 scattered points with values (float64, float32 or integer) and a grid transform; points within "
        "1e-6 of a cell edge are not generated; each cell is compared with the exact mean of its points; distinct by points")


@scenario(quick=700, thorough=7000, need={"points": 20000, "cells": 3000, "shared": 1000, "float32": 50, "int": 50, "lists": 50,
                                                "negative": 80, "skewed": 60})
def averages(ctx):
    """gridpoints against per-cell lists"""
    rng = ctx.rng
    if rng.random() < 0.5:
        x0, y0, dx, dy, sx, sy = gen.rnd_transform(rng)
    else:
        dx, dy = [rng.choice([1.0, 0.5, 10.0, rng.uniform(0.1, 20)]) for _ in range(2)]
        x0, y0 = gen.rnd_num(rng, 100), gen.rnd_num(rng, 100)
        sx = sy = 0.0
    if dx < 0 or dy < 0:
        ctx.event("negative")
    if sx or sy:
        ctx.event("skewed")
    n = rng.choice([1, 2, 5, 30, 100, 400])
    wx, wy = rng.randrange(1, 15), rng.randrange(1, 15)
    def coord(w):
        while True:
            a = rng.uniform(0, w)
            if 1e-6 < a % 1 < 1 - 1e-6:
                return a
    a = [coord(wx) for _ in range(n)]
    b = [coord(wy) for _ in range(n)]
    x = np.array([x0 + t * dx + u * sx for t, u in zip(a, b)])
    y = np.array([y0 + u * dy + t * sy for t, u in zip(a, b)])
    kind = rng.choice(["f8", "f8", "f4", "i4", "ro", "list"])
    z = np.array([rng.uniform(-100, 100) for _ in range(n)])
    if kind == "f4":
        z = z.astype(np.float32)
        ctx.event("float32")
    elif kind == "i4":
        z = z.astype(np.int32)
        ctx.event("int")
    elif kind == "ro":
        z.setflags(write=False)
    elif kind == "list":
        z = z.tolist()
        ctx.event("lists")
    T = (x0, y0, dx, dy, sx, sy)
    c = rng.choice([karta.crs.Cartesian, gen.UTM7])
    if rng.random() < 0.2:
        x, y = x.tolist(), y.tolist()
    keep = (np.array(x), np.array(y), np.array(z))
    g = gridpoints(x, y, z, T, c)
    ctx.note(T=T, n=n, kind=kind)
    for u, w in zip((x, y, z), keep):
        ctx.arr_eq(np.array(u), w, "gridpoints changed an input")
    ctx.check(g.crs == c and tuple(g.transform) == T, "gridpoints: georeferencing")
    cells = {}
    for k in range(n):
        cells.setdefault((int(b[k]), int(a[k])), []).append(float(z[k]))
    ny, nx = max(i for i, j in cells) + 1, max(j for i, j in cells) + 1
    ctx.eq(tuple(g.size), (ny, nx), "gridpoints: size reaches the furthest point")
    out = g[:, :, 0]
    for i in range(ny):
        for j in range(nx):
            if (i, j) in cells:
                L = cells[(i, j)]
                ctx.close(float(out[i, j]), sum(L) / len(L), 1e-9 * (1 + max(map(abs, L))), "gridpoints: cell (%d,%d) is not the mean of its points" % (i, j))
                if len(L) > 1:
                    ctx.event("shared")
            else:
                ctx.check(out[i, j] != out[i, j], "gridpoints: a cell without points must be nodata", got=float(out[i, j]))
    ctx.event("points", n)
    ctx.event("cells", len(cells))
    ctx.distinct(T, a, b)


@scenario(quick=8, thorough=40, need={"points": 100000})
def crowded(ctx):
    """very many points in one cell"""
    rng = ctx.rng
    n = rng.choice([33000, 40000, 70000])
    npr = np.random.RandomState(rng.randrange(2**31))
    x, y = npr.uniform(0.1, 0.9, n), npr.uniform(0.1, 0.9, n)
    z = npr.uniform(0, 10, n)
    if rng.random() < 0.5:
        z = z.astype(np.float32)
    g = gridpoints(x, y, z, (0, 0, 1, 1, 0, 0), karta.crs.Cartesian)
    ctx.eq(tuple(g.size), (1, 1), "size")
    ctx.close(float(g[0, 0, 0]), float(z.astype(float).mean()), 1e-3, "mean of many points")
    ctx.note(n=n, dtype=str(z.dtype))
    ctx.event("points", n)
    ctx.distinct(n, float(z[0]))


@scenario(quick=60, thorough=400, need={"refused": 40})
def off_grid(ctx):
    """a point before the grid's origin is refused, not averaged into some other cell"""
    rng = ctx.rng
    n = rng.randrange(2, 20)
    x = [rng.uniform(0.1, 5) for _ in range(n)]
    y = [rng.uniform(0.1, 5) for _ in range(n)]
    k = rng.randrange(n)
    if rng.random() < 0.5:
        x[k] = rng.uniform(-9, -0.01)
    else:
        y[k] = rng.uniform(-9, -0.01)
    z = np.arange(float(n)) if rng.random() < 0.5 else np.arange(n)
    ctx.note(x=x, y=y)
    fx, fy = rng.choice([1, -1]), rng.choice([1, -1])
    x, y = [fx * t for t in x], [fy * t for t in y]
    ctx.raises(Exception, lambda: gridpoints(np.array(x), np.array(y), z, (0, 0, fx, fy, 0, 0), karta.crs.Cartesian),
               "a point off the grid must be refused")
    ctx.event("refused")
    ctx.distinct(x, y)
