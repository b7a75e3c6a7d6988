"""C26 lines and rings taken apart and put together: segments, slices, equally spaced points, conversions."""
import math
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from lib.geoms import coords, state
from karta import Point, Line, Polygon, Multipoint
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, LonLatNAD27, WebMercator, NSIDCNorth
from lib import systems as other_datums
from karta.crs import ProjectedCRS

RULE = ("a case is a line or polygon - planar at any scale and distance from the origin, or geographical, with repeated "
        "vertices - divided into segments, slices or equally spaced points, or a pair of lines joined; distinct by vertices")


def rnd_line(rng):
    S = 10.0 ** rng.choice([-9, -6, -3, 0, 0, 1, 3, 6, 7, 8])
    O = rng.choice([0.0, 0.0, 1.0, 100.0])
    n = rng.choice([2, 2, 3, 4, 10, 60])
    P = [(S * (rng.uniform(-1, 1) + O), S * (rng.uniform(-1, 1) - O)) for _ in range(n)]
    if rng.random() < 0.2:
        P = [(S * (rng.randrange(-3, 4) + O), S * (rng.randrange(-3, 4) - O)) for _ in range(n)]
    if rng.random() < 0.2:
        k = rng.randrange(len(P))
        for _ in range(rng.randrange(1, 3)):
            P.insert(k, P[k])
    if rng.random() < 0.1:
        P.append(P[0])
    return P, S, O


def along(P, s):
    """reference position at a distance along a planar line"""
    for a, b in zip(P, P[1:]):
        L = math.hypot(b[0] - a[0], b[1] - a[1])
        if L > 0 and s <= L:
            return (a[0] + (b[0] - a[0]) * (s / L), a[1] + (b[1] - a[1]) * (s / L))
        s -= L
    return P[-1]


@scenario(quick=2500, thorough=50000, need={"npoints": 1500, "points": 1500, "three_d": 100})
def planar_spacing(ctx):
    """to_points and to_npoints of planar lines"""
    rng = ctx.rng
    P, S, O = rnd_line(rng)
    L = math.fsum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(P, P[1:]))
    if L == 0:
        raise Skip()
    crs = rng.choice([Cartesian, Cartesian, WebMercator, NSIDCNorth])
    z = rng.random() < 0.15
    g = Line([p + (S * rng.uniform(-2, 2),) for p in P] if z else P, crs=crs)
    if z: ctx.event("three_d")
    before = state(g)
    tol = S * (1e-11 + 1e-13 * O * 10) * (1 + len(P) / 10.0)
    n = rng.choice([2, 3, 4, 7, 10, 100, 500])
    ctx.note(P=P, n=n, crs=crs.name)
    q = g.to_npoints(n)
    ctx.check(isinstance(q, Multipoint) and q.crs == crs, "to_npoints: type and coordinate system")
    ctx.eq(len(q), n, "to_npoints: number of points")
    V = q.vertices()
    for k in range(n):
        w = along(P, L * k / (n - 1))
        # a corner is ambiguous within rounding: compare positions only
        ctx.check(abs(V[k][0] - w[0]) + abs(V[k][1] - w[1]) <= tol * 10, "to_npoints: position", k=k, got=tuple(V[k]), want=w)
    ctx.eq(tuple(map(float, V[0][:2])), P[0], "to_npoints: first point")
    ctx.check(abs(V[-1][0] - P[-1][0]) + abs(V[-1][1] - P[-1][1]) <= tol, "to_npoints: last point")
    ctx.event("npoints")
    dx = L / rng.choice([0.4, 1.0, 2.0, 3.7, 10.0, 25.3, 200.7])
    q = g.to_points(dx)
    ctx.note(dx=dx)
    V = q.vertices()
    lo, hi = math.floor(L / dx - 1e-9) + 1, math.floor(L / dx + 1e-9) + 1
    ctx.check(lo <= len(q) <= hi, "to_points: number of points", got=len(q), want=(lo, hi))
    for k in range(len(V)):
        w = along(P, k * dx)
        ctx.check(abs(V[k][0] - w[0]) + abs(V[k][1] - w[1]) <= tol * 20, "to_points: position", k=k, got=tuple(V[k]), want=w)
    ctx.eq(tuple(map(float, V[0][:2])), P[0], "to_points: first point")
    ctx.check(q.crs == crs, "to_points: coordinate system")
    ctx.eq(state(g), before, "the line changed")
    ctx.event("points")
    ctx.distinct(P, n)


def drifting(G, P, legs, dx):
    """what Line.to_points does instead of following the geodesics (KF-to-points-azimuth)"""
    out, here, rest = [P[0]], P[0], 0.0
    for b, l in zip(P[1:], legs):
        pos = 0.0
        while pos < l[2]:
            d = G.inv(here[0], here[1], b[0], b[1])[2]
            if d >= dx - rest:
                here = G.fwd(here[0], here[1], l[0], dx - rest)[:2]
                pos += dx - rest
                rest = 0.0
                out.append(here)
            else:
                rest += d
                pos = l[2]
                here = b
    return out


@scenario(quick=700, thorough=15000, need={"lines": 500, "dateline": 80})
def geodesic_spacing(ctx):
    """equally spaced points lie on the geodesics between the vertices"""
    rng = ctx.rng
    crs, el = rng.choice([(LonLatWGS84, dict(ellps="WGS84")), (SphericalEarth, dict(a=6370997.0, b=6370997.0)), (LonLatNAD27, dict(ellps="clrk66"))])
    G = pyproj.Geod(**el)
    r = rng.choice([1e-3, 1.0, 25.0])
    dl = rng.random() < 0.3
    cx, cy = (180.0 if dl else rng.uniform(-180, 180)), rng.uniform(-55, 55)
    P = [((cx + rng.uniform(-r, r) + 180) % 360 - 180, cy + rng.uniform(-r, r)) for _ in range(rng.randrange(2, 6))]
    if rng.random() < 0.15: P[1] = (P[0][0], P[1][1])
    if rng.random() < 0.15: P.insert(1, P[0])
    legs = [G.inv(a[0], a[1], b[0], b[1]) for a, b in zip(P, P[1:])]
    L = math.fsum(l[2] for l in legs)
    if L < 1:
        raise Skip()

    def at(s):
        for a, l in zip(P, legs):
            if l[2] > 0 and s <= l[2]:
                return G.fwd(a[0], a[1], l[0], s)[:2]
            s -= l[2]
        return P[-1]

    g = Line([p + (rng.uniform(0, 9000),) for p in P] if rng.random() < 0.15 else P, crs=crs)
    n = rng.choice([2, 3, 6, 20])
    dx = L / rng.choice([0.5, 1.5, 3.3, 12.7])
    ctx.note(P=P, n=n, dx=dx, crs=crs.name)
    tol = 1e-5 + 1e-10 * L
    ctx.event("lines")
    if dl: ctx.event("dateline")
    ctx.distinct(P)
    q = g.to_npoints(n)
    V = q.vertices()
    ctx.eq(len(V), n, "to_npoints: number of points")
    for k, v in enumerate(V):
        w = at(k * L / (n - 1))
        ctx.close(G.inv(v[0], v[1], w[0], w[1])[2], 0.0, tol, "to_npoints: position along the geodesic")
    ctx.check(q.crs == crs, "to_npoints: coordinate system")
    q = g.to_points(dx)
    V = [T(v[:2]) for v in q.vertices()]
    ctx.check(q.crs == crs, "to_points: coordinate system")
    ctx.eq(V[0], P[0], "to_points: first point")
    W = [at(k * dx) for k in range(len(V))]
    lo, hi = math.floor(L / dx - 1e-9) + 1, math.floor(L / dx + 1e-9) + 1
    if not (lo <= len(V) <= hi and all(G.inv(v[0], v[1], w[0], w[1])[2] <= tol for v, w in zip(V, W))):
        # the known defect: the azimuth at the start of a segment is kept all along it
        W = drifting(G, P, legs, dx)
        same = abs(len(W) - len(V)) <= 1 and all(G.inv(v[0], v[1], w[0], w[1])[2] <= tol for v, w in zip(V, W))
        ctx.check(False, "to_points: positions off the line", tag="KF-to-points-azimuth" if same else "", got=V[:20], want=[at(k * dx) for k in range(hi)][:20])


def T(v):
    return tuple(float(a) for a in v)


@scenario(quick=2000, thorough=40000, need={"Line": 600, "Polygon": 600, "slices": 1500})
def pieces(ctx):
    """segments, vertices, slices, conversions"""
    rng = ctx.rng
    z = rng.random() < 0.3
    ring = rng.random() < 0.5
    P = coords(rng, rng.choice([3, 4, 5, 9, 40]) if ring else rng.choice([2, 3, 5, 9, 40]), z, 100.0)
    if rng.random() < 0.2:
        P.insert(1, P[1])
    P = [T(p) for p in P]
    crs = rng.choice([Cartesian, LonLatWGS84, WebMercator])
    props = {"a": 1}
    n = len(P)
    if rng.random() < 0.2:
        g = (Polygon if ring else Line)([Point(p, crs=crs) for p in P], properties=props)
        ctx.check(g.crs == crs, "coordinate system of a geometry made of points")
    else:
        g = (Polygon if ring else Line)(P, properties=props, crs=crs)
    ctx.note(P=P, ring=ring)
    ctx.eq(len(g), n, "number of vertices")
    ctx.eq([T(v) for v in g.vertices()], P, "vertices")
    ctx.eq([T(v) for v in g.vertices(drop_z=True)], [p[:2] for p in P], "vertices without third coordinates")
    ctx.eq([T(p.vertex()) for p in g], P, "vertices met by iterating")
    c = g.coords()
    ctx.eq((T(c[0]), T(c[1])), (tuple(p[0] for p in P), tuple(p[1] for p in P)), "coordinate lists")
    k = rng.randrange(-n, n)
    q = g[k]
    ctx.check(q == Point(P[k], properties=props, crs=crs), "vertex by index")
    ctx.raises(IndexError, lambda: g[n + rng.randrange(3)], "index beyond the last vertex")
    want = [(P[i], P[(i + 1) % n]) for i in range(n if ring else n - 1)]
    S = list(g.segments)
    ctx.eq([tuple(T(v) for v in s.vertices()) for s in S], want, "segments")
    ctx.check(all(s.crs == crs and s._geotype == "Line" for s in S), "segments are lines in the same coordinate system")
    st = [(T(a), T(b)) for a, b in g.segment_tuples]
    ctx.check(sorted(st) == sorted(want), "segment tuples", got=st[:10], want=want[:10])
    if not ring:
        ctx.eq(st, want, "order of the segment tuples")
    for _ in range(3):
        s = slice(rng.choice([None, rng.randrange(-n - 1, n + 2)]), rng.choice([None, rng.randrange(-n - 1, n + 2)]),
                  rng.choice([None, 1, 1, 2, 3, -1, -2]))
        h = g[s]
        ctx.note(slice=str(s))
        ctx.eq([T(v) for v in h.vertices()] if len(h) else [], P[s], "slice")
        if len(P[s]) and n > 1:
            ctx.eq(h._geotype, "Polygon" if ring and len(P[s]) == n else "Line", "kind of a slice (a ring only if it has all vertices)")
        ctx.check(h.crs == crs and h.properties == props, "slice keeps properties and coordinate system")
        ctx.event("slices")
    if ring:
        l = g.to_line()
        closed = P + P[:1] if P[0] != P[-1] else P
        ctx.eq([T(v) for v in l.vertices()], closed, "ring as a line")
        ctx.eq([T(v) for v in g.vertices_ring], closed, "vertices_ring")
        ctx.check(l.crs == crs and l._geotype == "Line", "ring as a line: coordinate system")
        ctx.eq(l.properties, props, "ring as a line: properties")
        if not crs == LonLatWGS84:
            ctx.close(l.length, g.perimeter, 1e-9 * (1 + g.perimeter), "length of the ring as a line")
    else:
        p = g.to_polygon()
        ctx.eq([T(v) for v in p.vertices()], P, "line as a polygon")
        ctx.eq(len(list(p.segments)), n, "line as a polygon: closing segment")
        ctx.check(p.crs == crs and p.properties == props and p._geotype == "Polygon", "line as a polygon: attributes")
        h = Line([T(a) for a in coords(rng, rng.randrange(2, 6), z, 100.0)], crs=crs)
        hv = [T(v) for v in h.vertices()]
        if rng.random() < 0.5 and n > 2:
            g.bbox(), g.length
        r = g.extend(h)
        ctx.eq([T(v) for v in g.vertices()], P + hv, "extended line")
        ctx.eq([T(v) for v in h.vertices()], hv, "line extended by")
        if crs == Cartesian and not z:
            W = P + hv
            ctx.close(g.length, math.fsum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(W, W[1:])), 1e-9, "length of the extended line")
        ctx.raises(ValueError, lambda: g.extend(Line([T(a) for a in coords(rng, 3, not z, 1.0)], crs=crs)), "lines of different rank joined")
        ctx.raises(TypeError, lambda: g.extend(Polygon([T(a) for a in coords(rng, 3, z, 1.0)], crs=crs)), "a polygon joined to a line")
    ctx.event("Polygon" if ring else "Line")
    ctx.distinct(P, ring)


@scenario(quick=30, thorough=400, need={"cases": 20})
def extended_across(ctx):
    """a line extended by one in another coordinate system"""
    rng = ctx.rng
    A = [(rng.uniform(-50, 50), rng.uniform(-50, 50)) for _ in range(3)]
    B = [(rng.uniform(-50, 50), rng.uniform(-50, 50)) for _ in range(3)]
    g = Line(A, crs=LonLatWGS84)
    g.extend(Line([WebMercator.project(*b) for b in B], crs=WebMercator))
    ctx.arr_eq(g.vertices(), np.array(A + B), "extended line in its own coordinate system", atol=1e-7)
    ctx.check(g.crs == LonLatWGS84, "coordinate system")
    ctx.event("cases")
    ctx.distinct(A)


@scenario(quick=60, thorough=800, need={"other_system": 50})
def other_systems(ctx):
    """extension by, and merging with, geometries on another datum"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(LonLatWGS84, A)
    own = [pa(other_datums.near(rng)) for _ in range(rng.randrange(2, 5))]
    other = [to_b(other_datums.near(rng)) for _ in range(rng.randrange(2, 5))]
    g = Line(own, crs=A, properties={"a": 1})
    g.extend(Line(other, crs=B))
    k = 1e-3 if isinstance(A, ProjectedCRS) else 1e-8
    want = own + [to_a(p) for p in other]
    got = [tuple(v) for v in g.vertices()]
    ctx.note(A=A.name, B=B.name, own=own, other=other)
    ctx.check(len(got) == len(want) and all(abs(a[0] - b[0]) < k and abs(a[1] - b[1]) < k for a, b in zip(got, want)),
              "line extended by one on another datum", got=got, want=want)
    ctx.check(g.crs == A and g.properties == {"a": 1}, "system and properties of an extended line")
    # the sum of two geometries is the collection of both, in the system of the first
    close = lambda v, w: len(v) == len(w) and all(abs(a[0] - b[0]) < k and abs(a[1] - b[1]) < k for a, b in zip(v, w))
    moved = [to_a(p) for p in other]
    s = Line(own, crs=A) + Line(other, crs=B)
    V = s.vertices()
    ctx.check(s._geotype == "Multiline" and s.crs == A and len(V) == 2 and close(V[0], own) and close(V[1], moved), "sum of lines on different datums", got=V, want=(own, moved))
    s = Point(own[0], crs=A) + Point(other[0], crs=B)
    V = s.vertices()
    ctx.check(s._geotype == "Multipoint" and s.crs == A and close(V, [own[0], moved[0]]), "sum of points on different datums", got=V, want=(own[0], moved[0]))
    own, other = own + [pa(other_datums.near(rng))], other + [to_b(other_datums.near(rng))]
    moved = [to_a(p) for p in other]
    s = Polygon(own, crs=A) + Polygon(other, crs=B)
    V = s.vertices()
    ctx.check(s._geotype == "Multipolygon" and s.crs == A and len(V) == 2 and close(V[0][0], own) and close(V[1][0], moved), "sum of polygons on different datums", got=V, want=(own, moved))
    ctx.event("other_system")
    ctx.distinct(A.name, B.name, own)
