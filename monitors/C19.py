"""C19 lengths, perimeters, areas, centroids and winding of planar geometries; geodetic lengths."""
import math
from fractions import Fraction as F
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from lib import gen, geo
from karta import Point, Polygon, Line
from karta.vector.geometry import Multipolygon
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, LonLatNAD27, WebMercator, NSIDCNorth

RULE = ("a case is a line or simple polygon - on a lattice or in general position, at any scale and distance from the origin, "
        "either winding, any starting vertex, with holes and islands, two- or three-dimensional, planar or geographical; "
        "distinct by vertices")


def exact(P):
    """signed area and centroid in exact arithmetic"""
    Q = [(F(a), F(b)) for a, b in P]
    A = cx = cy = F(0)
    for (a, b), (c, d) in geo.segs(Q, True):
        k = a * d - c * b
        A += k
        cx += (a + c) * k
        cy += (b + d) * k
    A /= 2
    return A, (cx / (6 * A) if A else None), (cy / (6 * A) if A else None)


def plen(P, ring):
    return math.fsum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in geo.segs(P, ring))


def shape(rng):
    S = 10.0 ** rng.choice([-6, -3, 0, 0, 1, 3, 6])
    O = rng.choice([0.0, 0.0, 1.0, 100.0, 1e4, 1e6])
    n = rng.randrange(3, 14)
    P = gen.star_polygon(rng, 0.0, 0.0, 1.0, n=n)
    if rng.random() < 0.3:
        P = [(round(a * 8) / 8.0, round(b * 8) / 8.0) for a, b in P]
    P = [(S * (a + O), S * (b - 0.7 * O)) for a, b in P]
    if rng.random() < 0.5:
        P.reverse()
    k = rng.randrange(len(P))
    return P[k:] + P[:k], S, O


def mk(rng, P, subs=None, crs=Cartesian):
    if rng.random() < 0.2:
        return Polygon([p + (rng.uniform(0, 9),) for p in P], subs=subs, crs=crs)
    if not subs and rng.random() < 0.2:
        return Multipolygon([[P]], crs=crs)[0]
    if not subs and rng.random() < 0.2:
        return Line(P, crs=crs).to_polygon()
    if not subs and rng.random() < 0.2:
        return Polygon([Point(p, crs=crs) for p in P])
    return Polygon(P, subs=subs, crs=crs)


@scenario(quick=3000, thorough=50000, need={"polygons": 2500, "clockwise": 500, "far": 300})
def polygons(ctx):
    """area, perimeter, centroid, isclockwise of a simple polygon"""
    rng = ctx.rng
    P, S, O = shape(rng)
    A, cx, cy = exact(P)
    if abs(A) < F(S) ** 2 / 1000:
        raise Skip()
    crs = rng.choice([Cartesian, Cartesian, WebMercator, NSIDCNorth])
    g = mk(rng, P, crs=crs)
    ctx.note(P=P, crs=crs.name)
    u = 1e-15 * (1 + O)               # rounding of one coordinate relative to S
    ctx.close(g.area, abs(float(A)), S * S * (200 * u), "area")
    ctx.close(g.perimeter, plen(P, True), S * 1e-13 * len(P) + S * u * 20, "perimeter")
    ctx.eq(bool(g.isclockwise()), A < 0, "isclockwise")
    c = g.centroid
    t = S * 2000 * u * float(F(S) ** 2 / abs(A))
    ctx.close(math.hypot(c.x - float(cx), c.y - float(cy)), 0.0, t, "centroid")
    ctx.check(c.crs == g.crs, "centroid keeps the coordinate system")
    r = Polygon(P[::-1], crs=crs)
    ctx.close(r.area, g.area, S * S * 400 * u, "area does not depend on the winding")
    ctx.eq(bool(r.isclockwise()), not (A < 0), "reversal turns the winding")
    ctx.event("polygons")
    if A < 0: ctx.event("clockwise")
    if O > 1000: ctx.event("far")
    ctx.distinct(P)


@scenario(quick=500, thorough=8000, need={"exact": 400})
def far_lattice(ctx):
    """whole numbers far from the origin: differences are exact, so measures are"""
    rng = ctx.rng
    o = 2 ** rng.randrange(30, 50)
    ox, oy = rng.choice([-1, 1]) * o, rng.choice([-1, 1, 0]) * o
    w = rng.choice([4, 40, 400])
    P = gen.star_polygon(rng, 0.0, 0.0, float(w), n=rng.randrange(3, 10))
    P = [(float(round(a) + ox), float(round(b) + oy)) for a, b in P]
    if rng.random() < 0.5:
        P.reverse()
    A, cx, cy = exact(P)
    if abs(A) < w:
        raise Skip()
    g = mk(rng, P)
    ctx.note(P=P)
    ctx.close(g.area, abs(float(A)), 1e-9 * w * w, "area far from the origin")
    ctx.close(g.perimeter, plen(P, True), 1e-9 * w, "perimeter far from the origin")
    c = g.centroid
    ctx.close(float(abs(F(float(c.x)) - cx)), 0.0, 1e-9 * w * float(w * w / abs(A)) + 2e-16 * 4 * o, "centroid far from the origin (x)")
    ctx.close(float(abs(F(float(c.y)) - cy)), 0.0, 1e-9 * w * float(w * w / abs(A)) + 2e-16 * 4 * o, "centroid far from the origin (y)")
    ctx.close(Line(P).length, plen(P, False), 1e-9 * w, "length far from the origin")
    ctx.event("exact")
    ctx.distinct(P)


@scenario(quick=700, thorough=10000, need={"holes": 600, "islands": 100})
def holes(ctx):
    """sub-polygons are subtracted from the area, added to the perimeter"""
    rng = ctx.rng
    S = 10.0 ** rng.choice([-2, 0, 3])
    W = rng.uniform(5, 9)
    sq = lambda x, y, r: [(S * (x + dx * r), S * (y + dy * r)) for dx, dy in rng.choice(
        [[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(-1, -1), (-1, 1), (1, 1), (1, -1)], [(-1, 0), (0, -1), (1, 0)]])]
    outer = sq(0, 0, W)
    if len(outer) == 3:
        outer = [(S * 3 * W * a, S * 3 * W * b) for a, b in [(-1, -1), (1, -1), (0, 1)]]
    subs, area, per = [], abs(float(exact(outer)[0])), plen(outer, True)
    for cx, cy in rng.sample([(-1.5, -1.5), (1.5, -1.5), (-1.5, 1.5), (1.5, 1.5)], rng.randrange(1, 4)):
        h = sq(cx, cy, rng.uniform(0.5, 1))
        isl = []
        area -= abs(float(exact(h)[0]))
        per += plen(h, True)
        if rng.random() < 0.4:
            i = sq(cx, cy, 0.1)
            area += abs(float(exact(i)[0]))
            per += plen(i, True)
            isl = [Polygon(i)]
            ctx.event("islands")
        subs.append(Polygon(h, subs=isl))
        ctx.event("holes")
    g = mk(rng, outer, subs)
    ctx.note(outer=outer)
    ctx.close(g.area, area, 1e-12 * S * S * 500, "area with holes")
    ctx.close(g.perimeter, per, 1e-12 * S * 200, "perimeter with holes")
    ctx.distinct(outer, area)


@scenario(quick=1500, thorough=20000, need={"lines": 1000, "three_d": 200})
def lines(ctx):
    """length, cumulength, displacement of planar lines"""
    rng = ctx.rng
    S = 10.0 ** rng.choice([-6, -3, 0, 1, 3, 6])
    O = rng.choice([0.0, 1.0, 1e4])
    n = rng.choice([2, 2, 3, 5, 10, 100])
    P = [(S * (rng.uniform(-1, 1) + O), S * (rng.uniform(-1, 1) - O)) for _ in range(n)]
    if rng.random() < 0.3:
        k = rng.randrange(n)
        P.insert(k, P[k])
    z = rng.random() < 0.25
    if z: ctx.event("three_d")
    Z = [rng.uniform(-S, S) for _ in P]
    g = Line([p + (c,) for p, c in zip(P, Z)] if z else P, crs=rng.choice([Cartesian, WebMercator]))
    ctx.note(P=P[:30], n=n, z=z)
    t = S * (1e-13 * n + 1e-15 * O * n)
    want = plen(P, False)
    ctx.close(g.length, want, t, "length")
    ctx.close(g.length, want, t, "length asked again")
    c = g.cumulength()
    acc = [plen(P[:k + 1], False) for k in range(len(P))]
    ctx.arr_eq(np.asarray(c, dtype=float), np.asarray(acc), "cumulative length", atol=t)
    ctx.close(c[-1], g.length, t, "the last cumulative length is the length")
    d = math.hypot(P[-1][0] - P[0][0], P[-1][1] - P[0][1])
    ctx.close(g.displacement(), math.hypot(d, Z[-1] - Z[0]) if z else d, t, "displacement")
    S2 = list(g.segments)
    ctx.eq(len(S2), len(P) - 1, "number of segments")
    ctx.close(math.fsum(s.length for s in S2), want, t, "sum of the segment lengths")
    rev = Line(P[::-1], crs=g.crs)
    ctx.close(rev.length, want, t, "length of the reversed line")
    ctx.event("lines")
    ctx.distinct(P)


@scenario(quick=1200, thorough=20000, need={"lines": 300, "rings": 300, "dateline": 100})
def geodetic(ctx):
    """length and perimeter along geodesics"""
    rng = ctx.rng
    crs, el = rng.choice([(LonLatWGS84, dict(ellps="WGS84")), (SphericalEarth, dict(a=6370997.0, b=6370997.0)), (LonLatNAD27, dict(ellps="clrk66"))])
    G = pyproj.Geod(**el)
    r = rng.choice([1e-4, 1, 15])
    dl = rng.random() < 0.3
    c = (180.0 if dl else rng.uniform(-180, 180), rng.uniform(-70, 70))
    n = rng.randrange(2, 9)
    P = [((c[0] + rng.uniform(-r, r) + 180) % 360 - 180, c[1] + rng.uniform(-r, r)) for _ in range(n)]
    if rng.random() < 0.2: P[1] = (P[0][0], P[1][1])
    if rng.random() < 0.1: P.insert(1, P[0])
    if rng.random() < 0.2:
        k = rng.randrange(len(P))
        P.insert(k, P[k])
    ring = rng.random() < 0.5 and len(P) > 2
    V = [p + (rng.uniform(-5, 5) * r * 1e5,) for p in P] if rng.random() < 0.2 else P
    ctx.note(P=V, ring=ring, crs=crs.name)
    want = math.fsum(G.inv(a[0], a[1], b[0], b[1])[2] for a, b in geo.segs(P, ring))
    t = 1e-4 + 1e-9 * want
    if ring:
        ctx.close(Polygon(V, crs=crs).perimeter, want, t, "geodetic perimeter")
        ctx.event("rings")
    else:
        g = Line(V, crs=crs)
        ctx.close(g.length, want, t, "geodetic length")
        cl = g.cumulength()
        ctx.eq(len(cl), len(P), "cumulative length has one entry per vertex")
        ctx.close(cl[-1], want, t, "geodetic cumulative length")
        d = G.inv(P[0][0], P[0][1], P[-1][0], P[-1][1])[2]
        ctx.close(g.displacement(), math.hypot(d, V[-1][2] - V[0][2]) if len(V[0]) == 3 else d, t + 1e-9 * r * 1e6, "geodetic displacement")
        ctx.event("lines")
    if dl: ctx.event("dateline")
    ctx.distinct(P, ring)
