"""C12 Multipoint queries equal a scan of every point."""
import math
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from lib import gen, geo
from karta import Point, Polygon
from karta.vector.geometry import Multipoint
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, WebMercator, NSIDCNorth, ProjectedCRS
from lib import systems as other_datums

RULE = ("a case is a set of 0-5000 points - spread, clustered, on a lattice, repeated, in line, at extreme coordinates, with or "
        "without a third coordinate - with attributes, queried by box, radius and polygon with and without the spatial index; "
        "distinct by point set and query")


def cloud(rng, n, style, S, O):
    P = []
    x0 = S * rng.uniform(1, 2)
    X = [x0 * (1 + k * 2.0 ** -52) for k in range(rng.randrange(2, 6))]
    for k in range(n):
        if style == "spread":
            p = (rng.uniform(0, S), rng.uniform(0, S))
        elif style == "cluster":
            p = (S / 2 + rng.gauss(0, S * 1e-3), S / 2 + rng.gauss(0, S * 1e-3)) if k % 10 else (rng.uniform(0, S), rng.uniform(0, S))
        elif style == "lattice":
            p = (S * rng.randrange(17) / 16.0, S * rng.randrange(17) / 16.0)
        elif style == "repeat":
            p = rng.choice(P) if P and rng.random() < 0.7 else (rng.uniform(0, S), rng.uniform(0, S))
        elif style == "xline":
            p = (rng.uniform(0, S), 0.25 * S)
        elif style == "yline":
            p = (0.25 * S, rng.uniform(0, S))
        elif style == "ulp":
            p = (X[0] if rng.random() < 0.7 else X[rng.randrange(len(X))], rng.uniform(0, S))
            p = p if len(X) % 2 else p[::-1]
        else:
            p = (S / 4, S / 4)
        P.append(p)
    return [(a + O, b - O) for a, b in P]


def build(ctx, rng, crs=Cartesian, big=False):
    n = rng.choice([3000, 5000]) if big else rng.choice([0, 1, 2, 10, 49, 50, 51, 52, 100, 101, 210, 500])
    style = rng.choice(["spread", "spread", "cluster", "lattice", "repeat", "xline", "yline", "same", "ulp"])
    S = 2.0 ** rng.choice([-10, 0, 6, 24])
    O = S * rng.choice([0, 0, 0, 64])
    P = cloud(rng, n, style, S, O)
    z = rng.random() < 0.15 and n > 0
    V = [p + (rng.uniform(-1, 1) * S * 0.1,) for p in P] if z else P
    kw = dict(data={"id": list(range(n)), "tag": ["t%d" % (i * 7 % 13) for i in range(n)]} if n else None, crs=crs,
              properties={"name": "cloud"})
    a = Multipoint(V, **kw)
    b = Multipoint(V, build_index=False, **kw)
    ctx.note(n=n, style=style, S=S, O=O, z=z, head=V[:5])
    return a, b, P, V, S, O, style


def verify(ctx, r, must, maybe, V, what):
    ids = list(r.data.getfield("id")) if len(r) else []
    g = set(ids)
    ctx.check(len(ids) == len(g), what + ": a point is returned twice", ids=ids[:30])
    ctx.check(must <= g, what + ": points missing", missing=sorted(must - g)[:10])
    ctx.check(g <= must | maybe, what + ": points that do not qualify", extra=sorted(g - must - maybe)[:10])
    ctx.eq(ids, sorted(ids), what + ": order of the points")
    if ids:
        ctx.eq([tuple(map(float, v)) for v in r.vertices()], [tuple(map(float, V[i])) for i in ids], what + ": coordinates of the points")
        ctx.eq(list(r.data.getfield("tag")), ["t%d" % (i * 7 % 13) for i in ids], what + ": attributes of the points")
    ctx.eq(r.properties, {"name": "cloud"}, what + ": properties")
    ctx.event("hits", len(must))
    ctx.event("queries")


def box_part(ctx, rng, a, b, P, V, S, O):
    if P and rng.random() < 0.5:
        q = rng.choice(P)
    else:
        q = (O + rng.uniform(-.1, 1.1) * S, -O + rng.uniform(-.1, 1.1) * S)
    if rng.random() < 0.3:      # lattice box
        x0, x1 = sorted(rng.sample(range(-1, 18), 2))
        y0, y1 = sorted(rng.sample(range(-1, 18), 2))
        q = (O + S * x0 / 16.0, -O + S * y0 / 16.0, O + S * x1 / 16.0, -O + S * y1 / 16.0)
    else:
        w, h = [S * rng.choice([1e-4, 0.01, 0.1, 0.6, 3]) for _ in range(2)]
        q = (q[0] - w, q[1] - h, q[0] + w, q[1] + h)
    must = set(i for i, p in enumerate(P) if q[0] < p[0] < q[2] and q[1] < p[1] < q[3])
    verify(ctx, a.within_bbox(q), must, set(), V, "within_bbox")
    verify(ctx, b.within_bbox(q), must, set(), V, "within_bbox without index")


def radius_part(ctx, rng, a, b, P, V, S, O):
    c = rng.choice(P) if P and rng.random() < 0.5 else (O + rng.uniform(-.1, 1.1) * S, -O + rng.uniform(-.1, 1.1) * S)
    r = S * rng.choice([1.0 / 16, 3.0 / 16, 5.0 / 16, 10.0 / 16, 0.01, 0.3, 2])
    if rng.random() < 0.3:          # triples 3-4-5 put points of the lattice exactly on the circle
        c, r = (O + S * rng.randrange(17) / 16.0, -O + S * rng.randrange(17) / 16.0), S * rng.choice([5.0, 10.0]) / 16
    z3 = len(V) and len(V[0]) == 3
    cz = (0.0,) if z3 and rng.random() < 0.5 else ()
    pt = Point(c + cz)
    e = 1e-12 * (S + O)
    must, maybe = set(), set()
    for i, p in enumerate(V):
        d = math.hypot(p[0] - c[0], p[1] - c[1])
        if cz:
            d = math.hypot(d, p[2])
        if d < r - e:
            must.add(i)
        elif d < r + e and d != r:
            maybe.add(i)
        if d == r:
            ctx.event("on_border")
    verify(ctx, a.within_radius(pt, r), must, maybe, V, "within_radius")
    verify(ctx, b.within_radius(pt, r), must, maybe, V, "within_radius without index")


def poly_part(ctx, rng, a, b, P, V, S, O):
    if rng.random() < 0.4:
        x0, x1 = sorted(rng.sample(range(0, 17), 2))
        y0, y1 = sorted(rng.sample(range(0, 17), 2))
        R = [(O + S * x / 16.0, -O + S * y / 16.0) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
    else:
        R = gen.star_polygon(rng, O + rng.uniform(0, 1) * S, -O + rng.uniform(0, 1) * S, S * rng.choice([.05, .3, 1]))
    hole = None
    if rng.random() < 0.3:
        cx, cy = sum(p[0] for p in R) / len(R), sum(p[1] for p in R) / len(R)
        hole = gen.star_polygon(rng, cx, cy, S * 0.02)
    g = Polygon(R, subs=[Polygon(hole)] if hole else None)
    must, maybe = set(), set()
    e = 1e-11 * (S + O)
    for i, p in enumerate(P):
        if gen.dist_to_ring(p[0], p[1], R) <= e or (hole and gen.dist_to_ring(p[0], p[1], hole) <= e):
            if bool(g.contains(Point(p))):
                must.add(i)
            continue
        if gen.winding(p[0], p[1], R) and not (hole and gen.winding(p[0], p[1], hole)):
            must.add(i)
    verify(ctx, a.within_polygon(g), must, maybe, V, "within_polygon")
    verify(ctx, b.within_polygon(g), must, maybe, V, "within_polygon without index")


@scenario(quick=420, thorough=6000, need={"queries": 2000, "hits": 8000, "on_border": 50})
def planar(ctx):
    """box, radius and polygon queries on planar points"""
    rng = ctx.rng
    a, b, P, V, S, O, style = build(ctx, rng)
    if len(P) == 0:
        ctx.check(len(a.within_bbox((0, 0, 1, 1))) == 0, "within_bbox of no points")
        return
    box_part(ctx, rng, a, b, P, V, S, O)
    box_part(ctx, rng, a, b, P, V, S, O)
    radius_part(ctx, rng, a, b, P, V, S, O)
    q = rng.choice(P) if rng.random() < 0.3 else (O + rng.uniform(-.1, 1.1) * S, -O + rng.uniform(-.1, 1.1) * S)
    D = [math.hypot(p[0] - q[0], p[1] - q[1]) for p in P]
    i = int(a.nearest_vertex_to(Point(q)))
    ctx.check(0 <= i < len(P) and D[i] <= min(D) + 1e-12 * (S + O), "nearest_vertex_to", got=i, want=D.index(min(D)))
    poly_part(ctx, rng, a, b, P, V, S, O)
    ctx.distinct(style, P[:4], len(P), S)


@scenario(quick=8, thorough=80, need={"queries": 20, "hits": 500})
def planar_large(ctx):
    """index several levels deep"""
    rng = ctx.rng
    a, b, P, V, S, O, style = build(ctx, rng, big=True)
    for _ in range(4):
        box_part(ctx, rng, a, b, P, V, S, O)
        radius_part(ctx, rng, a, b, P, V, S, O)
    ctx.distinct(style, P[:4], len(P), S)


@scenario(quick=60, thorough=1000, need={"queries": 60, "hits": 300, "wrap": 10})
def geodetic_radius(ctx):
    """radius queries in geographical coordinates, also over the dateline and the poles"""
    rng = ctx.rng
    st = rng.choice(["plain", "dateline", "pole"])
    r = 10.0 ** rng.uniform(0.5, 6)
    deg = r / 111000.0
    if st == "plain":
        c = (rng.uniform(-170, 170), rng.uniform(-70, 70))
    elif st == "dateline":
        c = ((180 + rng.uniform(-1, 1) * deg + 180) % 360 - 180, rng.uniform(-60, 60))
    else:
        c = (rng.uniform(-180, 180), max(-89.99999, min(89.99999, rng.choice([-1, 1]) * (90 - rng.uniform(0, 1) * deg))))
    crs = rng.choice([LonLatWGS84, SphericalEarth])
    geod = pyproj.Geod(ellps="WGS84") if crs is LonLatWGS84 else pyproj.Geod(a=6370997.0, b=6370997.0)
    V, D = [], []
    n = rng.choice([20, 60, 120])
    for k in range(n):
        d = r * rng.uniform(0, 2)
        lo, la, _ = geod.fwd(c[0], c[1], rng.uniform(0, 360), d)
        V.append((lo, la)); D.append(d)
    a = Multipoint(V, data={"id": list(range(n)), "tag": ["t%d" % (i * 7 % 13) for i in range(n)]}, crs=crs, properties={"name": "cloud"},
                   build_index=rng.random() < 0.8)
    ctx.note(kind=st, centre=c, radius=r, n=n, crs=crs.name)
    must = set(i for i in range(n) if D[i] < r * (1 - 1e-7) - 1e-5)
    maybe = set(i for i in range(n) if abs(D[i] - r) <= r * 1e-7 + 1e-5)
    verify(ctx, a.within_radius(Point(c, crs=crs), r), must, maybe, V, "within_radius in geographical coordinates")
    if rng.random() < 0.5:
        for g in (a, a[:rng.randrange(1, n)]):
            i = int(g.nearest_vertex_to(Point(c, crs=crs)))
            ctx.check(0 <= i < len(g) and D[i] <= min(D[:len(g)]) + 1e-5 + 1e-9 * r, "nearest_vertex_to in geographical coordinates", got=i)
        ctx.event("nearest")
    if st != "plain":
        ctx.event("wrap")
    ctx.distinct(c, r, n)


@scenario(quick=40, thorough=400, need={"queries": 40})
def mixed_crs(ctx):
    """query geometry given in another coordinate system"""
    rng = ctx.rng
    crs = rng.choice([WebMercator, NSIDCNorth])
    lon0, lat0 = rng.uniform(-120, -60), rng.uniform(55, 75)
    x0, y0 = crs.project(lon0, lat0)
    r = rng.choice([300.0, 30000.0])
    n = 25
    V = [(x0 + rng.uniform(-2, 2) * r, y0 + rng.uniform(-2, 2) * r) for _ in range(n)]
    a = Multipoint(V, data={"id": list(range(n)), "tag": ["t%d" % (i * 7 % 13) for i in range(n)]}, crs=crs, properties={"name": "cloud"})
    ctx.note(crs=crs.name, x0=x0, y0=y0, r=r)
    # the centre's distance is measured as Point.distance defines it, from the centre's own (geodetic) system
    geod = pyproj.Geod(ellps="WGS84")
    lo, la = crs.project([v[0] for v in V], [v[1] for v in V], inverse=True)
    D = [geod.inv(lon0, lat0, b, c)[2] for b, c in zip(lo, la)]
    must = set(i for i in range(n) if D[i] < r * 0.99999)
    maybe = set(i for i in range(n) if abs(D[i] - r) <= r * 1e-5)
    verify(ctx, a.within_radius(Point((lon0, lat0), crs=LonLatWGS84), r), must, maybe, V, "within_radius about a point in another coordinate system")
    i = int(a.nearest_vertex_to(Point((lon0, lat0), crs=LonLatWGS84)))
    ctx.check(0 <= i < n and D[i] <= min(D) + 1e-3, "nearest_vertex_to a point in another coordinate system", got=i, want=D.index(min(D)))
    R = gen.star_polygon(rng, lon0, lat0, r / 111000.0)
    G = Polygon(R, crs=LonLatWGS84)
    must = set(i for i in range(n) if gen.winding(lo[i], la[i], R))
    maybe = set(i for i in range(n) if gen.dist_to_ring(lo[i], la[i], R) < 1e-4 * r / 111000.0)
    verify(ctx, a.within_polygon(G), must - maybe, maybe, V, "within_polygon of a polygon in another coordinate system")
    ctx.distinct(x0, y0, r)


@scenario(quick=40, thorough=600, need={"other_system": 30, "other_hits": 80})
def other_systems(ctx):
    """the query geometry on another datum: as if it had been given in the collection's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(LonLatWGS84, A)
    n = rng.choice([5, 30])
    V = [pa(other_datums.near(rng, 0.15)) for _ in range(n)]
    a = Multipoint(V, data={"id": list(range(n))}, crs=A)
    ring = [to_b(p) for p in gen.star_polygon(rng, 10.0, 50.0, 0.12, n=rng.randrange(3, 9))]
    c = to_b(other_datums.near(rng, 0.05))
    ctx.note(A=A.name, B=B.name, V=V, ring=ring, centre=c)
    f = lambda m: [int(i) for i in m.d["id"]] if len(m) else []
    got = f(a.within_polygon(Polygon(ring, crs=B)))
    # as the points lie in the polygon's system
    back = other_datums.mover(A, B)
    G = Polygon(ring, crs=B)
    want = [i for i in range(n) if G.contains(Point(back(V[i]), crs=B))]
    ctx.eq(got, want, "within_polygon of a polygon on another datum")
    r = 8000.0
    C = Point(c, crs=B)
    D = [Point(v, crs=A).distance(C) for v in V], [C.distance(Point(v, crs=A)) for v in V]
    got = f(a.within_radius(C, r))
    for i in range(n):
        if max(D[0][i], D[1][i]) < r * 0.9:
            ctx.check(i in got, "within_radius of a point on another datum: missing", i=i, d=D[0][i])
        elif min(D[0][i], D[1][i]) > r * 1.1:
            ctx.check(i not in got, "within_radius of a point on another datum: too far", i=i, d=D[0][i])
    ctx.event("other_system")
    ctx.event("other_hits", len(want) + len(got))
    ctx.distinct(A.name, B.name, V)
