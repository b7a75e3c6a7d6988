"""C17 convex hulls: convex, made of input vertices, and containing every input point."""
import math
from fractions import Fraction as F
import numpy as np
from lib.mon import scenario, Skip
from lib import gen, geo
from karta import Point, Polygon, Line
from karta.vector.geometry import Multipoint
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, WebMercator

RULE = ("a case is a point set, line or polygon - lattice points with repeats and many in line, general position at any scale, "
        "one and two points, points on a sphere; the hull is compared with an exact monotone-chain hull; distinct by vertices")


def chain(P):
    """exact strict hull, counter-clockwise"""
    P = sorted(set(P))
    if len(P) <= 2:
        return P
    def half(Q):
        h = []
        for p in Q:
            while len(h) > 1 and geo.orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(P), half(P[::-1])
    return a[:-1] + b[:-1]


def make(rng, P, crs=Cartesian):
    k = rng.randrange(4)
    z = rng.random() < 0.1
    V = [p + (rng.uniform(0, 5),) for p in P] if z else P
    if k == 0 and len(P) >= 2:
        return Line(V, crs=crs), "line"
    if k == 1 and len(P) >= 3:
        return Polygon(V, crs=crs), "polygon"
    return Multipoint(V, crs=crs, build_index=False), "multipoint"


def cyc(H):
    k = H.index(min(H))
    return H[k:] + H[:k]


@scenario(quick=1500, thorough=25000, need={"collinear": 300, "hulls": 1000, "degenerate": 60})
def lattice(ctx):
    """exact comparison on lattices"""
    rng = ctx.rng
    w = rng.choice([2, 3, 5, 9, 40, 1000])
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 60])
    P = [(rng.randrange(w), rng.randrange(w)) for _ in range(n)]
    st = rng.randrange(5)
    if st == 0:
        a, b = rng.randrange(-2, 3), rng.randrange(-2, 3)
        P = [(i * a + 1, i * b) for i in [rng.randrange(-6, 7) for _ in P]]
    elif st == 1:
        P = P + [rng.choice(P) for _ in range(n)]
        rng.shuffle(P)
    k = rng.choice([1.0, 0.5, 128.0])
    o = rng.choice([0, 0, 5000])
    P = [(k * (a + o), k * (b - o)) for a, b in P]
    g, kind = make(rng, P)
    ctx.note(P=P, kind=kind)
    before = g.vertices().copy()
    h = g.convex_hull()
    ctx.check(isinstance(h, Polygon), "hull is a polygon")
    ctx.check(h.crs == g.crs, "hull keeps the coordinate system")
    H = [tuple(map(float, v[:2])) for v in h.vertices()]
    C = chain(P)
    ctx.check(all(v in set(P) for v in H), "hull vertices are input vertices")
    full = set(tuple(map(float, v)) for v in before)
    ctx.check(all(tuple(map(float, v)) in full for v in h.vertices()), "hull vertices are input vertices, with their third coordinates")
    if len(C) >= 3:
        # vertices in line with their neighbours are allowed, positions and order are not free
        ctx.check(len(set(H)) == len(H), "hull repeats a vertex", H=H)
        keep = [H[i] for i in range(len(H)) if geo.orient(H[i - 1], H[i], H[(i + 1) % len(H)]) != 0]
        ctx.eq(cyc(keep), cyc(C), "hull vertices in counter-clockwise order")
        ctx.event("hulls")
        if len(C) < len(set(P)) and w < 10:
            ctx.event("collinear")
    else:
        ctx.eq(sorted(set(H)), sorted(C), "hull of points in line")
        ctx.event("degenerate")
    ctx.arr_eq(g.vertices(), before, "hull leaves the geometry alone")
    ctx.distinct(P, kind)


@scenario(quick=500, thorough=8000, need={"points": 10000})
def general(ctx):
    """general position at any scale: every point is inside"""
    rng = ctx.rng
    S = 10.0 ** rng.randrange(-8, 9)
    O = S * rng.choice([0, 1, 100])
    n = rng.choice([3, 4, 5, 10, 40, 200])
    st = rng.randrange(3)
    P = []
    for _ in range(n):
        if st == 0:
            p = (rng.uniform(-1, 1), rng.uniform(-1, 1))
        elif st == 1:
            t = rng.uniform(0, 2 * math.pi); p = (math.cos(t), math.sin(t))
        else:
            p = (rng.gauss(0, 1), 0.01 * rng.gauss(0, 1))
        P.append((p[0] * S + O, p[1] * S - O))
    g, kind = make(rng, P)
    ctx.note(P=P[:50], kind=kind, n=n)
    H = [tuple(map(float, v[:2])) for v in g.convex_hull().vertices()]
    ctx.check(len(H) >= 3 and all(v in set(P) for v in H), "hull vertices are input vertices")
    e = 1e-11 * (S + O) * S * 10
    m = len(H)
    for i in range(m):
        a, b = H[i], H[(i + 1) % m]
        for p in P:
            d = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
            ctx.check(d >= -e, "a point is outside the hull", point=p, edge=(a, b), d=d, tol=e)
    ctx.check(abs(geo_area(H)) >= abs(geo_area(chain(P))) * (1 - 1e-6) - e, "hull smaller than the exact one")
    ctx.event("points", n)
    ctx.distinct(P[:3], n, S)


def geo_area(P):
    x0, y0 = P[0]
    return 0.5 * sum((a[0] - x0) * (b[1] - y0) - (b[0] - x0) * (a[1] - y0) for a, b in geo.segs(P, True))


def xyz(p):
    l, f = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(f) * math.cos(l), math.cos(f) * math.sin(l), math.sin(f)])


@scenario(quick=300, thorough=5000, need={"hulls": 200, "dateline": 60})
def sphere(ctx):
    """points in a region narrower than a hemisphere: great-circle hull"""
    rng = ctx.rng
    r = rng.choice([0.1, 5, 30])
    dl = rng.random() < 0.3
    c = (180.0 if dl else rng.uniform(-140, 140), rng.uniform(-50, 50))
    n = rng.choice([3, 4, 6, 15, 40])
    wrap = lambda x: (x + 180) % 360 - 180 if dl else x
    P = [(wrap(c[0] + rng.uniform(-r, r)), c[1] + rng.uniform(-r, r)) for _ in range(n)]
    if dl: ctx.event("dateline")
    if rng.random() < 0.3:
        P += [rng.choice(P) for _ in range(5)]
    if rng.random() < 0.2:
        q = P[0]
        P += [(q[0], q[1] + rng.uniform(-r, r) * 0.1) for _ in range(3)]     # along a meridian
    crs = rng.choice([SphericalEarth, LonLatWGS84])
    g, kind = make(rng, P, crs)
    ctx.note(P=P, kind=kind)
    h = g.convex_hull()
    ctx.check(h.crs == g.crs, "hull keeps the coordinate system")
    H = [tuple(map(float, v[:2])) for v in h.vertices()]
    ctx.check(all(v in set(P) for v in H) and len(set(H)) == len(H) >= 3, "hull vertices are distinct input vertices", H=H)
    V = [xyz(p) for p in P]
    m = len(H)
    for i in range(m):
        nrm = np.cross(xyz(H[i]), xyz(H[(i + 1) % m]))
        l = np.linalg.norm(nrm)
        for p, v in zip(P, V):
            ctx.check(np.dot(nrm, v) >= -1e-13 - 1e-12 * l, "a point is outside the spherical hull", point=p, edge=(H[i], H[(i + 1) % m]), d=float(np.dot(nrm, v)))
    ctx.event("hulls")
    ctx.distinct(P)
