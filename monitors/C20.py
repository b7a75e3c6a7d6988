"""C20 affine transforms, shifts and rotations of geometries; fitting an affine matrix to control points."""
import math
import numpy as np
from lib.mon import scenario, Skip
from lib.geoms import coords, matrix, apply, state, mapped, flat, shape_of, make, box, first_rings
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon, affine_matrix
from karta.crs import Cartesian, LonLatWGS84, WebMercator, NSIDCNorth

RULE = ("a case is a geometry of any kind (points to multipolygons with holes and islands, two- or three-dimensional, with "
        "attributes and properties) and an affine map (general, singular, shift, rotation), or two sets of control points; "
        "distinct by vertices and map")


KINDS = ["Point", "Line", "Polygon", "Polygon", "Multipoint", "Multiline", "Multipolygon"]


def compare(ctx, g, before, r, f, tol, what):
    got, want = state(r), mapped(before, f)
    ctx.eq(shape_of(got), shape_of(want), what + ": parts, rings, vertices or dimensions changed")
    for p, q in zip(flat(got), flat(want)):
        for a, b in zip(p, q):
            ctx.close(a, b, tol, what + ": coordinate")
    ctx.check(type(r) is type(g) and r._geotype == g._geotype, what + ": type of geometry")
    ctx.check(r.crs == g.crs, what + ": coordinate system")
    ctx.eq(dict(r.properties), dict(g.properties), what + ": properties")
    if hasattr(g, "data"):
        for f_ in g.data.fields:
            ctx.eq(r.data.getfield(f_), g.data.getfield(f_), what + ": attributes")
        ctx.eq(len(r), len(g), what + ": number of members")
        if len(g):
            k = ctx.rng.randrange(len(g))
            ctx.eq(dict(r[k].properties), dict(g[k].properties), what + ": properties of a member")
    ctx.eq(state(g), before, what + ": the source changed")


@scenario(quick=2500, thorough=60000, need={"Point": 200, "Line": 200, "Polygon": 400, "Multipoint": 200, "Multiline": 200, "Multipolygon": 200})
def transforms(ctx):
    """apply_transform by 2x3 and 3x4 matrices"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    z = rng.random() < 0.4
    S = rng.choice([1.0, 100.0, 1e6])
    g = make(rng, kind, z, S, rng.choice([Cartesian, LonLatWGS84, WebMercator]) if S < 100 else Cartesian)
    M = matrix(rng, rng.random() < 0.5)
    ctx.note(kind=kind, z=z, M=M.tolist(), state=state(g)[:20])
    M0 = M.copy()
    before = state(g)
    if rng.random() < 0.4 and kind != "Point" and g.crs == Cartesian:
        g.bbox()                           # a cached box must not follow the copy
    r = g.apply_transform(M)
    tol = 1e-13 * (S * 10 + float(np.abs(M).max()))
    compare(ctx, g, before, r, lambda p: apply(M, p), tol, "apply_transform")
    ctx.check(np.array_equal(M, M0), "apply_transform changed the matrix")
    if kind != "Point" and g.crs == Cartesian:
        ctx.arr_eq(np.array(r.bbox()), np.array(box(first_rings(r))), "bounding box of the transformed geometry")
        ctx.arr_eq(np.array(g.bbox()), np.array(box(first_rings(g))), "bounding box of the source")
    if rng.random() < 0.1:
        ctx.raises(ValueError, lambda: g.apply_transform(np.eye(3) if rng.random() < 0.5 else np.eye(4)),
                   "a matrix of another shape is accepted")
    # composition
    if M.shape == (2, 3):
        N = matrix(rng, False)
        MN = np.dot(N, np.vstack([M, [0, 0, 1]]))
        two = state(r.apply_transform(N))
        t2 = tol * 20 * (1 + float(np.abs(N).max()))
        for a, b in zip(flat(two), flat(state(g.apply_transform(MN)))):
            for u, v in zip(a, b):
                ctx.close(u, v, t2, "successive transforms")
    ctx.event(kind)
    ctx.distinct(before, M.tolist())


@scenario(quick=1500, thorough=30000, need={"shift": 500, "rotate": 500})
def shifts(ctx):
    """shift and rotate"""
    rng = ctx.rng
    kind = rng.choice(["Point", "Line", "Polygon", "Polygon", "Multipoint"])
    z = rng.random() < 0.4
    S = rng.choice([1.0, 1000.0])
    g = make(rng, kind, z, S, rng.choice([Cartesian, NSIDCNorth]))
    before = state(g)
    if rng.random() < 0.5:
        v = tuple(rng.choice([0.0, 1.0, -2.5, rng.uniform(-1e4, 1e4)]) for _ in range(2))
        ctx.note(kind=kind, v=v, state=before)
        r = g.shift(rng.choice([tuple, list, np.array])(v))
        compare(ctx, g, before, r, lambda p: (p[0] + v[0], p[1] + v[1]) + p[2:], 1e-12 * (S + 1e4), "shift")
        ctx.raises(ValueError, lambda: g.shift((1.0, 2.0, 3.0)), "shift by three numbers")
        ctx.event("shift")
        ctx.distinct(before, v)
        return
    th = rng.choice([90, -90, 180, 360, 45, 0, 30, rng.uniform(-720, 720)])
    o = rng.choice([None, (0, 0), (1, 2), (S * rng.uniform(-1, 1), S * rng.uniform(-1, 1))])
    ctx.note(kind=kind, th=th, o=o, state=before)
    r = g.rotate(th) if o is None else g.rotate(th, origin=o)
    c = o or (0, 0)
    ct, st = math.cos(math.radians(th)), math.sin(math.radians(th))
    f = lambda p: (c[0] + ct * (p[0] - c[0]) - st * (p[1] - c[1]), c[1] + st * (p[0] - c[0]) + ct * (p[1] - c[1])) + p[2:]
    compare(ctx, g, before, r, f, 1e-11 * S, "rotate")
    # anticlockwise about the pivot, distances to the pivot kept, and undone by the opposite rotation
    back = r.rotate(-th) if o is None else r.rotate(-th, origin=o)
    for p, q in zip(flat(state(back)), flat(before)):
        for a, b in zip(p, q):
            ctx.close(a, b, 1e-11 * S, "opposite rotation")
    ctx.event("rotate")
    ctx.distinct(before, th, o)


@scenario(quick=400, thorough=8000, need={"exact": 100, "noisy": 100})
def fitted(ctx):
    """affine_matrix is the least squares fit of the second control points by the first"""
    rng = ctx.rng
    n = rng.choice([3, 4, 5, 10, 40])
    S = rng.choice([1.0, 100.0])
    A = coords(rng, n, False, S)
    (x0, y0), (x1, y1), (x2, y2) = A[:3]
    if abs((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) < 0.05 * S * S:
        raise Skip()
    M = matrix(rng, False)
    M[:, 2] = [rng.uniform(-S, S), rng.uniform(-S, S)]
    noise = rng.choice([0.0, 0.0, 0.3 * S])
    B = [tuple(a + noise * rng.gauss(0, 1) for a in apply(M, p)) for p in A]
    ctx.note(A=A, B=B)
    ga, gb = Multipoint(A), Multipoint(B)
    got = affine_matrix(ga, gb)
    D = np.array([(x, y, 1.0) for x, y in A])
    want = np.linalg.solve(D.T.dot(D), D.T.dot(np.array(B))).T
    pa, pb = D.dot(np.asarray(got).T), D.dot(want.T)
    ctx.arr_eq(np.asarray(got).shape, (2, 3), "shape of the matrix")
    ctx.arr_eq(pa, pb, "fitted positions", atol=1e-7 * S)
    if not noise:
        r = ga.apply_transform(np.asarray(got))
        ctx.arr_eq(r.vertices(), np.array(B), "control points mapped", atol=1e-8 * S)
    ctx.event("noisy" if noise else "exact")
    if rng.random() < 0.1:
        from karta.errors import GeometryError
        ctx.raises(GeometryError, lambda: affine_matrix(ga, Multipoint(B + [B[0]])), "lengths that differ")
    if rng.random() < 0.1:
        # control points in another coordinate system are taken in the first one's
        L = Multipoint([(rng.uniform(-60, 60), rng.uniform(-60, 60)) for _ in range(n)], crs=LonLatWGS84)
        W = Multipoint(L.vertices(WebMercator), crs=WebMercator)
        I = affine_matrix(L, W)
        ctx.arr_eq(np.asarray(I), np.array([[1, 0, 0], [0, 1, 0]]), "same points in another coordinate system", atol=1e-4)
    ctx.distinct(A, B)
