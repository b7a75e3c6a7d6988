"""C18 nearest positions and distances to lines and polygons."""
import math
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from lib import gen, geo
from karta import Point, Polygon, Line
from karta.vector.geometry import Multipoint, Multipolygon
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, WebMercator, NSIDCNorth
from lib import systems as other_datums
import karta

RULE = ("a case is a line or polygon boundary - lattice, general position at any scale, repeated vertices, axis-parallel, "
        "geodesic - and query points near segments, vertices and far away; distinct by geometry and point")


def near(P, ring, q):
    best = None
    for a, b in geo.segs(P, ring):
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = dx * dx + dy * dy
        t = 0.0 if L == 0 else max(0.0, min(1.0, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / L))
        p = (a[0] + t * dx, a[1] + t * dy)
        d = math.hypot(p[0] - q[0], p[1] - q[1])
        if best is None or d < best:
            best = d
    return best


@scenario(quick=900, thorough=15000, need={"queries": 2500, "polygon": 200, "on_vertex": 100, "closing_edge": 50, "three_d": 300})
def planar(ctx):
    """shortest_distance_to, nearest_on_boundary, within_distance, nearest_vertex_to"""
    rng = ctx.rng
    S = 10.0 ** rng.choice([-7, -5, -3, 0, 0, 2, 6])
    O = S * rng.choice([0, 0, 10])
    ring = rng.random() < 0.5
    st = rng.randrange(4)
    n = rng.randrange(2 + ring, 12)
    if st == 0:
        P = [(rng.randrange(8) * S, rng.randrange(8) * S) for _ in range(n)]
    elif st == 1:
        P = [(rng.uniform(0, 8) * S, rng.uniform(0, 8) * S) for _ in range(n)]
    elif st == 2:
        P = [(rng.uniform(0, 8) * S, rng.uniform(0, 8) * S)]
        while len(P) < n:
            a, b = P[-1]
            P.append((a, rng.uniform(0, 8) * S) if rng.random() < 0.5 else (rng.uniform(0, 8) * S, b))
    else:
        P = gen.star_polygon(rng, 4 * S, 4 * S, 4 * S)
    if rng.random() < 0.2:
        k = rng.randrange(len(P))
        P = P[:k] + [P[k]] + P[k:]
    P = [(a + O, b - O) for a, b in P]
    if len(P) < 2:
        raise Skip()
    g = Polygon(P) if ring else Line(P)
    if ring and rng.random() < 0.2:
        g = Multipolygon([[P]])[0]
    ctx.note(P=P, ring=ring)
    tol = 1e-9 * (S * 10 + O)
    for _ in range(4):
        k = rng.randrange(4)
        v = rng.choice(P)
        if k == 0:
            q = (O + rng.uniform(-8, 16) * S, -O + rng.uniform(-8, 16) * S)
        elif k == 1:
            q = v
        elif k == 2:
            a, b = geo.segs(P, ring)[-1]
            t = rng.uniform(0, 1)
            q = (a[0] + t * (b[0] - a[0]) + rng.gauss(0, .1) * S, a[1] + t * (b[1] - a[1]) + rng.gauss(0, .1) * S)
            ctx.event("closing_edge")
        else:
            q = (v[0] + rng.gauss(0, 0.3) * S, v[1] + rng.gauss(0, 0.3) * S)
        pt = Point(q)
        want = near(P, ring, q)
        d = g.shortest_distance_to(pt)
        ctx.close(d, want, tol, "shortest_distance_to")
        p = g.nearest_on_boundary(pt)
        ctx.close(math.hypot(p.x - q[0], p.y - q[1]), want, tol, "nearest_on_boundary is not the nearest position")
        ctx.check(min(geo.seg_point_d((p.x, p.y), *s) for s in geo.segs(P, ring)) <= tol, "nearest_on_boundary is not on the boundary", got=(p.x, p.y))
        ctx.check(p.crs == g.crs, "nearest_on_boundary keeps the coordinate system")
        for r in (want * rng.uniform(0, 0.99) - tol, want * rng.uniform(1.01, 2) + tol):
            if r > 0:
                ctx.eq(bool(g.within_distance(pt, r)), r > want, "within_distance")
        if k == 1:
            ctx.eq(bool(g.within_distance(pt, d)), True, "within_distance of exactly the shortest distance")
        i = g.nearest_vertex_to(pt)
        ds = [math.hypot(a - q[0], b - q[1]) for a, b in P]
        ctx.check(0 <= i < len(P) and ds[i] <= min(ds) + tol, "nearest_vertex_to", got=int(i), want=ds.index(min(ds)))
        D = g.distances_to(pt)
        ctx.arr_eq(np.asarray(D), np.asarray(ds), "distances_to", rtol=1e-12, atol=tol)
        ctx.arr_eq(np.asarray(g.flat_distances_to(pt)), np.asarray(ds), "flat_distances_to", rtol=1e-12, atol=tol)
        if rng.random() < 0.25:
            Z = [rng.uniform(-4, 4) * S for _ in P]
            qz = rng.uniform(-4, 4) * S
            g3 = rng.choice([Line, Polygon, Multipoint])([a + (b,) for a, b in zip(P, Z)])
            d3 = [math.sqrt(d * d + (c - qz) ** 2) for d, c in zip(ds, Z)]
            p3 = Point(q + (qz,))
            ctx.arr_eq(np.asarray(g3.distances_to(p3)), np.asarray(d3), "distances_to in three dimensions", rtol=1e-12, atol=tol)
            i = g3.nearest_vertex_to(p3)
            ctx.check(0 <= i < len(P) and d3[i] <= min(d3) + tol, "nearest_vertex_to in three dimensions", got=int(i), want=d3.index(min(d3)))
            ctx.event("three_d")
        ctx.event("queries")
        if ring: ctx.event("polygon")
        if want <= tol: ctx.event("on_vertex")
    ctx.distinct(P, ring)


@scenario(quick=300, thorough=5000, need={"near_ties": 300})
def near_ties(ctx):
    """segments at nearly the same distance: the nearer one counts, however small the difference"""
    rng = ctx.rng
    S = 2.0 ** rng.randrange(-6, 12)
    n = rng.randrange(2, 7)
    e = 2.0 ** -rng.randrange(10, 36)
    H = [1.0 + e * k for k in range(n)]
    rng.shuffle(H)
    P = []
    for i, h in enumerate(H):          # a zigzag of long horizontal segments above the point
        a, b = (-2.0, h * S), (2.0, h * S)
        far = (3.0 * S, h * S)
        P += [(-3.0 * S, h * S), far] if i % 2 == 0 else [far, (-3.0 * S, h * S)]
    q = (0.0, 0.0)
    if rng.random() < 0.5:
        P, q = [(b, a) for a, b in P], (0.0, 0.0)
    if rng.random() < 0.5:
        P = [(-a, -b) for a, b in P]
    g = Line(P)
    ctx.note(P=P)
    want = min(H) * S
    d = g.shortest_distance_to(Point(q))
    ctx.close(d, want, 4e-16 * 16 * S, "the nearest of several segments at nearly the same distance")
    p = g.nearest_on_boundary(Point(q))
    ctx.close(math.hypot(p.x, p.y), want, 4e-16 * 16 * S, "the nearest position on several segments at nearly the same distance")
    ctx.eq(bool(g.within_distance(Point(q), (want + want * (1 + e / 2)) / 2)), True, "within_distance")
    m = Multipoint([(0.0, h * S) for h in H])
    ctx.eq(H[int(m.nearest_vertex_to(Point(q)))], min(H), "nearest vertex of several at nearly the same distance")
    ctx.event("near_ties")
    ctx.distinct(P)


def geod_nearest(G, P, ring, q):
    """minimum over each geodesic by dense sampling and golden-section refinement"""
    best = float("inf")
    for a, b in geo.segs(P, ring):
        az, _, L = G.inv(a[0], a[1], b[0], b[1])
        if L == 0:
            best = min(best, G.inv(a[0], a[1], q[0], q[1])[2]); continue
        f = lambda s: G.inv(*(G.fwd(a[0], a[1], az, s)[:2] + (q[0], q[1])))[2]
        N = 24
        S = [L * k / N for k in range(N + 1)]
        lo, la, _ = G.fwd([a[0]] * (N + 1), [a[1]] * (N + 1), [az] * (N + 1), S)
        _, _, D = G.inv(lo, la, [q[0]] * (N + 1), [q[1]] * (N + 1))
        k = min(range(N + 1), key=lambda j: D[j])
        x0, x1 = S[max(0, k - 1)], S[min(N, k + 1)]
        gr = (math.sqrt(5) - 1) / 2
        c, d = x1 - gr * (x1 - x0), x0 + gr * (x1 - x0)
        fc, fd = f(c), f(d)
        while x1 - x0 > 1e-3:
            if fc < fd:
                x1, d, fd = d, c, fc
                c = x1 - gr * (x1 - x0); fc = f(c)
            else:
                x0, c, fc = c, d, fd
                d = x0 + gr * (x1 - x0); fd = f(d)
        best = min(best, fc, fd, D[k])
    return best


@scenario(quick=180, thorough=2500, need={"queries": 180, "dateline": 20, "near": 20})
def geodetic(ctx):
    """distances along and across geodesics"""
    rng = ctx.rng
    crs = rng.choice([LonLatWGS84, SphericalEarth])
    G = pyproj.Geod(ellps="WGS84") if crs is LonLatWGS84 else pyproj.Geod(a=6370997.0, b=6370997.0)
    r = rng.choice([0.01, 1, 10])
    dl = rng.random() < 0.25
    c = (180.0 if dl else rng.uniform(-150, 150), rng.uniform(-60, 60))
    ring = rng.random() < 0.4
    pt = lambda s: ((c[0] + rng.uniform(-r, r) * s + 180) % 360 - 180, c[1] + rng.uniform(-r, r) * s)
    P = [pt(1) for _ in range(rng.randrange(2 + ring, 5))]
    if rng.random() < 0.15:
        P.insert(1, P[0])
    if rng.random() < 0.2:
        P[1] = (P[0][0], P[1][1])
    g = Polygon(P, crs=crs) if ring else Line(P, crs=crs)
    ctx.note(P=P, ring=ring, crs=crs.name)
    for _ in range(2):
        q = pt(1.7)
        if rng.random() < 0.2:
            q = rng.choice(P)
        elif rng.random() < 0.4:         # metres away from a segment
            a, b = rng.choice(list(geo.segs(P, ring)))
            az, _, L = G.inv(a[0], a[1], b[0], b[1])
            x, y, baz = G.fwd(a[0], a[1], az, L * rng.random())
            q = G.fwd(x, y, baz + 90, rng.choice([0, 1, 10, 100]) * rng.uniform(-1, 1))[:2]
            ctx.event("near")
        p = Point(q, crs=crs)
        want = geod_nearest(G, P, ring, q)
        d = g.shortest_distance_to(p)
        tol = 0.5 + 1e-6 * want
        ctx.close(d, want, tol, "shortest_distance_to along geodesics")
        m = g.nearest_on_boundary(p)
        ctx.close(G.inv(m.x, m.y, q[0], q[1])[2], want, tol, "nearest_on_boundary on geodesics")
        ctx.check(geod_nearest(G, P, ring, (m.x, m.y)) < 0.5, "nearest_on_boundary is not on the boundary", got=(m.x, m.y))
        for k in (want * 0.98 - 1, want * 1.02 + 1):
            if k > 0:
                ctx.eq(bool(g.within_distance(p, k)), k > want, "within_distance along geodesics")
        ds = [G.inv(v[0], v[1], q[0], q[1])[2] for v in P]
        for h in (g, Multipoint(P, crs=crs)):
            i = h.nearest_vertex_to(p)
            ctx.check(0 <= i < len(P) and ds[i] <= min(ds) + 1e-3, "nearest_vertex_to along geodesics", got=int(i), want=ds.index(min(ds)))
            ctx.arr_eq(np.asarray(h.distances_to(p)), np.asarray(ds), "distances_to along geodesics", rtol=1e-9, atol=1e-3)
        ctx.event("queries")
        if dl: ctx.event("dateline")
    ctx.distinct(P, ring)


@scenario(quick=1200, thorough=15000, need={"queries": 900, "dateline": 100, "high": 100})
def vertices(ctx):
    """the nearest vertex anywhere on the globe"""
    rng = ctx.rng
    crs = rng.choice([LonLatWGS84, SphericalEarth])
    G = pyproj.Geod(ellps="WGS84") if crs is LonLatWGS84 else pyproj.Geod(a=6370997.0, b=6370997.0)
    st = rng.choice(["any", "dateline", "high"])
    if st == "any": pt = lambda: (rng.uniform(-180, 180), rng.uniform(-90, 90))
    elif st == "dateline": pt = lambda: ((180 + rng.gauss(0, 5) + 180) % 360 - 180, rng.uniform(-80, 80))
    else:
        sg = rng.choice([-1, 1])
        pt = lambda: (rng.uniform(-180, 180), sg * rng.uniform(70, 90))
    P = [pt() for _ in range(rng.randrange(3, 9))]
    z = rng.random() < 0.2
    V = [v + (5.0,) for v in P] if z else P
    q = pt()
    ctx.note(P=V, q=q, crs=crs.name)
    g = rng.choice([Multipoint, Line, Polygon])(V, crs=crs)
    p = Point(q + (5.0,) if z else q, crs=crs)
    ds = [G.inv(v[0], v[1], q[0], q[1])[2] for v in P]
    i = g.nearest_vertex_to(p)
    ctx.check(0 <= i < len(P) and ds[i] <= min(ds) + 1e-3, "nearest_vertex_to on the globe", got=int(i), want=ds.index(min(ds)))
    ctx.arr_eq(np.asarray(g.distances_to(p)), np.asarray(ds), "distances_to on the globe", rtol=1e-9, atol=1e-3)
    ctx.event("queries")
    ctx.event(st)
    ctx.distinct(P, q)


@scenario(quick=10, thorough=150, need={"queries": 10})
def mixed_crs(ctx):
    """the point is given in another coordinate system"""
    rng = ctx.rng
    crs = rng.choice([WebMercator, NSIDCNorth])
    lon0, lat0 = rng.uniform(-120, -60), rng.uniform(55, 75)
    x0, y0 = crs.project(lon0, lat0)
    r = rng.choice([300.0, 30000.0])
    ring = rng.random() < 0.5
    P = [(x0 + rng.uniform(-r, r), y0 + rng.uniform(-r, r)) for _ in range(rng.randrange(2 + ring, 6))]
    q = (x0 + rng.uniform(-r, r), y0 + rng.uniform(-r, r))
    lo, la = crs.project(q[0], q[1], inverse=True)
    g = Polygon(P, crs=crs) if ring else Line(P, crs=crs)
    ctx.note(P=P, ring=ring, q=q, crs=crs.name)
    want = near(P, ring, q)
    pt = Point((lo, la), crs=LonLatWGS84)
    ctx.close(g.shortest_distance_to(pt), want, 1e-3 + 1e-6 * r, "shortest_distance_to a point in another coordinate system")
    p = g.nearest_on_boundary(pt)
    ctx.close(math.hypot(p.x - q[0], p.y - q[1]), want, 1e-3 + 1e-6 * r, "nearest_on_boundary of a point in another coordinate system")
    ds = [math.hypot(a - q[0], b - q[1]) for a, b in P]
    i = g.nearest_vertex_to(pt)
    ctx.check(0 <= i < len(P) and ds[i] <= min(ds) * 1.02 + 1, "nearest_vertex_to a point in another coordinate system", got=int(i), want=ds.index(min(ds)))
    ctx.eq(bool(g.within_distance(pt, want * 1.01 + 1)), True, "within_distance of a point in another coordinate system")
    ctx.event("queries")
    ctx.distinct(P, q)


@scenario(quick=120, thorough=2000, need={"other_system": 100})
def other_systems(ctx):
    """the point on another datum: as if it had been given in the geometry's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(karta.crs.LonLatWGS84, A)
    own = [pa(other_datums.near(rng)) for _ in range(rng.randrange(3, 6))]
    g = rng.choice([Line, Polygon])(own, crs=A)
    q = to_b(other_datums.near(rng))
    p, p2 = Point(q, crs=B), Point(to_a(q), crs=A)
    ctx.note(A=A.name, B=B.name, own=own, point=q)
    k = 1.0 if isinstance(A, karta.crs.ProjectedCRS) else 1e-5
    n, n2 = g.nearest_on_boundary(p).vertex(), g.nearest_on_boundary(p2).vertex()
    ctx.check(abs(n[0] - n2[0]) < 0.5 * k and abs(n[1] - n2[1]) < 0.5 * k, "nearest position to a point on another datum", got=n, want=n2)
    d2 = [float(x) for x in g.distances_to(p2)]
    i = int(g.nearest_vertex_to(p))
    ctx.check(0 <= i < len(own) and d2[i] <= min(d2) * 1.03 + 1, "nearest vertex to a point on another datum", got=i, distances=d2)
    d = [float(x) for x in g.distances_to(p)]      # in the point's own system
    back = other_datums.mover(A, B)
    w = [float(p.distance(Point(back(v), crs=B))) for v in own]
    ctx.check(len(d) == len(w) and all(abs(x - y) < 0.05 for x, y in zip(d, w)), "distances to a point on another datum", got=d, want=w)
    s, s2 = g.shortest_distance_to(p), g.shortest_distance_to(p2)
    ctx.check(abs(s - s2) < 0.5, "shortest distance to a point on another datum", got=s, want=s2)
    for f in (0.7, 1.3):
        ctx.eq(bool(g.within_distance(p, s2 * f + (1 if f > 1 else -1))), f > 1, "within_distance of a point on another datum")
    ctx.event("other_system")
    ctx.distinct(A.name, B.name, own)
