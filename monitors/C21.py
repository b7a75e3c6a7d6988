"""C21 bounding boxes and extents of geometries: planar, geographical (great circles, dateline, poles), other crs."""
import math
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon
from karta.crs import Cartesian, LonLatWGS84, SphericalEarth, LonLatNAD83, WebMercator, NSIDCNorth
from lib.geoms import coords, make, state, first_rings, box
from lib import systems as other_datums
from karta.crs import ProjectedCRS

RULE = ("a case is a geometry - planar of any kind, or a geographical line or polygon near, across or along the dateline, the "
        "equator or around a pole - whose box is compared with its vertices or with densely sampled great-circle edges; "
        "distinct by vertices")


@scenario(quick=2500, thorough=50000, need={"multi": 500, "single": 800})
def planar(ctx):
    """the box of planar coordinates is exactly that of the vertices, before and after other queries"""
    rng = ctx.rng
    kind = rng.choice(["Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"])
    g = make(rng, kind, rng.random() < 0.3, rng.choice([1e-3, 1.0, 1e3, 1e7]), rng.choice([Cartesian, WebMercator, NSIDCNorth]))
    ctx.note(kind=kind, state=state(g)[:20])
    want = box(first_rings(g))
    ops = [rng.choice(["bbox", "extent", "bboxcrs", "extentcrs"]) for _ in range(rng.randrange(2, 6))]
    for op in ops:
        if op.startswith("bbox"):
            b = g.bbox(crs=g.crs) if op == "bboxcrs" else g.bbox()
            ctx.eq(tuple(map(float, b)), want, "bbox")
        else:
            b = g.extent(crs=g.crs) if op == "extentcrs" else g.extent()
            ctx.eq(tuple(map(float, b)), (want[0], want[2], want[1], want[3]), "extent")
    if kind.startswith("Multi"):
        if kind != "Multipoint" and rng.random() < 0.5:
            k = rng.randrange(len(g))
            ctx.eq(tuple(map(float, g[k].bbox())), box(first_rings(g[k])), "bbox of a member")
        ctx.event("multi")
    else:
        ctx.event("single")
    if kind == "Multipoint" and rng.random() < 0.5:
        k = rng.randrange(len(g))
        v = list(g.vertices()[k])
        v[rng.randrange(2)] = rng.uniform(-1, 1) * 1e8
        g[k] = tuple(v) if rng.random() < 0.5 else Point(tuple(v), crs=g.crs)
        ctx.eq(tuple(map(float, g.bbox())), box(state(g)), "bbox after assignment")
    if kind == "Line":
        h = make(rng, "Line", len(g.vertices()[0]) == 3, 1e8, g.crs)
        g.extend(h)
        ctx.eq(tuple(map(float, g.bbox())), box(state(g)), "bbox after extending the line")
        ctx.eq(tuple(map(float, g.extent()))[:2], (box(state(g))[0], box(state(g))[2]), "extent after extending the line")
    ctx.distinct(state(g))


@scenario(quick=60, thorough=1500, need={"cases": 50})
def reprojected(ctx):
    """the box in another projected system is that of the vertices there"""
    rng = ctx.rng
    crs, (x0, x1), (y0, y1) = rng.choice([p for p in gen.PROJECTED])
    n = rng.randrange(3, 8)
    P = [(rng.uniform(x0, x1), rng.uniform(y0, y1)) for _ in range(n)]
    kind = rng.choice([Line, Polygon, Multipoint, Multiline, Multipolygon])
    if kind is Multiline: g = Multiline([P, P[:2]], crs=LonLatWGS84)
    elif kind is Multipolygon: g = Multipolygon([[P], [P[:3]]], crs=LonLatWGS84)
    else: g = kind(P, crs=LonLatWGS84)
    ctx.note(P=P, kind=kind.__name__, crs=crs.name)
    if rng.random() < 0.5:
        g.bbox()
    Q = [crs.project(a, b) for a, b in P]
    want = box([tuple(q) for q in Q])
    tol = 1e-3
    ctx.arr_eq(np.array(g.bbox(crs=crs), dtype=float), np.array(want), "bbox in another system", atol=tol)
    ctx.arr_eq(np.array(g.extent(crs=crs), dtype=float), np.array([want[0], want[2], want[1], want[3]]), "extent in another system", atol=tol)
    own = g.bbox()
    for a, b in P:
        ctx.check(own[1] - 1e-9 <= b <= own[3] + 1e-9, "own box asked after another one", own=own, p=(a, b))
    # and from the projected system back to longitude and latitude
    w = kind([Q, Q[:2]], crs=crs) if kind is Multiline else None
    if kind in (Line, Polygon):
        w = kind(Q, crs=crs)
        a = w.bbox(crs=LonLatWGS84)
        b = g.bbox()
        ctx.arr_eq(np.array([a[1], a[3]], dtype=float), np.array([b[1], b[3]], dtype=float), "latitudes of the box from a projected system", atol=1e-6)
        for u, v in ((a[0], b[0]), (a[2], b[2])):
            d = abs((u - v + 180) % 360 - 180)
            ctx.check(d < 1e-6, "longitudes of the box from a projected system", got=a, want=b)
    ctx.event("cases")
    ctx.distinct(P, crs.name)


def vec(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))


def lonlat(v):
    return math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))


def slerp(u, v, t):
    w = [a * (1 - t) + b * t for a, b in zip(u, v)]
    n = math.sqrt(sum(a * a for a in w))
    return tuple(a / n for a in w)


def samples(P, ring, m):
    """points densely along great-circle edges, with longitudes unrolled"""
    out = []
    n = len(P)
    cur = P[0][0]
    for k in range(n if ring else n - 1):
        a, b = P[k], P[(k + 1) % n]
        u, v = vec(*a[:2]), vec(*b[:2])
        for i in range(m + 1):
            lo, la = lonlat(slerp(u, v, i / m)) if 0 < i < m else (a if i == 0 else b)[:2]
            d = (lo - cur + 180) % 360 - 180
            cur += d
            out.append((cur, la))
    return out


def inside(lon, w, e, tol):
    """longitude in the eastward interval from w to e"""
    if w == -180 and e == 180:
        return True
    span = (e - w) % 360 if not (w <= e) else e - w
    return min(((lon - w + tol) % 360), 1e9) <= span + 2 * tol


@scenario(quick=2500, thorough=40000, need={"dateline": 400, "polar": 150, "equator": 200, "box": 2000})
def geographical(ctx):
    """great-circle edges are inside the box, which is no larger than they need"""
    rng = ctx.rng
    crs = rng.choice([LonLatWGS84, SphericalEarth, LonLatNAD83])
    where = rng.choice(["any", "any", "dateline", "dateline", "polar", "equator"])
    ring = rng.random() < 0.5
    n = rng.randrange(3, 9)
    r = rng.choice([0.01, 1.0, 10.0, 30.0])
    hemi = rng.choice([-1, 1])
    if where == "polar":
        ring = rng.random() < 0.8
        n = rng.randrange(4, 10)
        lat = rng.uniform(50, 88)
        st = rng.uniform(0, 360)
        P = [((st + 360.0 * k / n + rng.uniform(-15, 15) + 180) % 360 - 180, hemi * (lat + rng.uniform(0, 2))) for k in range(n)]
        if rng.random() < 0.5: P.reverse()
    else:
        cx = {"any": rng.uniform(-140, 140), "dateline": 180 + rng.uniform(-r, r) / 2, "equator": rng.uniform(-140, 140)}[where]
        cy = rng.uniform(-3, 3) if where == "equator" else rng.uniform(-50, 50)
        P = [((a + 180) % 360 - 180, b) for a, b in gen.star_polygon(rng, cx, cy, r, n=n)]
        if rng.random() < 0.15:
            P = [(a, P[0][1]) for a, b in P]       # along a parallel
            ring = False
        if rng.random() < 0.1 and not ring:
            P = [(P[0][0], b) for a, b in P]       # along a meridian
    z = rng.random() < 0.2
    V = [p + (rng.uniform(0, 9),) for p in P] if z else P
    g = (Polygon if ring else Line)(V, crs=crs)
    ctx.note(P=P, ring=ring, crs=crs.name, where=where)
    S = samples(P, ring, 200)
    if any(abs(((b[0] - a[0] + 180) % 360) - 180) > 170 for a, b in zip(P, P[1:] + P[:1])):
        raise Skip()
    E = list(zip(P, P[1:] + P[:1] if ring else P[1:]))
    if all(abs(abs(d[0] - c[0]) - 180) > 1e-6 and abs(abs(c[0]) - 180) > 1e-9 for c, d in E):
        over = any(abs(d[0] - c[0]) > 180 for c, d in E)
        ctx.eq(bool(g.crosses_dateline()), over, "crosses_dateline")
        ctx.event("over" if over else "not over")
    b = tuple(map(float, g.bbox()))
    ex = tuple(map(float, g.extent()))
    ctx.eq((ex[0], ex[2], ex[1], ex[3]), b, "extent against bbox")
    w, s, e, nn = b
    ctx.check(-180 <= w <= 180 and -180 <= e <= 180 and -90 <= s <= nn <= 90, "range of the box", box=b)
    lo, hi = min(x for x, y in S), max(x for x, y in S)
    ls, ln = min(y for x, y in S), max(y for x, y in S)
    wind = round((S[-1][0] - S[0][0]) / 360.0) if ring else 0
    if wind:
        if sum(p[1] for p in P) > 0: ln = 90.0
        else: ls = -90.0
        ctx.event("polar")
    for x, y in S:
        ctx.check(s - 1e-7 <= y <= nn + 1e-7, "a position of the boundary is north or south of the box", box=b, at=(x, y))
        ctx.check(inside(x, w, e, 1e-7), "a position of the boundary is east or west of the box", box=b, at=(x, y))
    t = 1e-3 * (1 + r)
    ctx.close(s, ls, t, "southern edge")
    ctx.close(nn, ln, t, "northern edge")
    if hi - lo < 359.9 and not wind:
        span = (e - w) if w <= e else e - w + 360
        ctx.close(span, hi - lo, 1e-6, "width of the box")
        ctx.close(abs((w - lo + 180) % 360 - 180), 0, 1e-6, "western edge")
    else:
        ctx.check(wind == 0 or (w == -180 and e == 180), "a ring around a pole spans every longitude", box=b)
    if where in ("dateline", "equator"): ctx.event(where)
    ctx.event("box")
    ctx.distinct(P, ring)


@scenario(quick=300, thorough=5000, need={"cases": 250})
def geographical_points(ctx):
    """every point of a geographical Multipoint, every member of a collection is in its box"""
    rng = ctx.rng
    n = rng.randrange(1, 40)
    c = rng.uniform(-120, 120)
    P = [(c + rng.uniform(-40, 40), rng.uniform(-80, 80)) for _ in range(n)]
    g = Multipoint(P, crs=LonLatWGS84)
    w, s, e, nn = g.bbox()
    for x, y in P:
        ctx.check(w <= x <= e and s <= y <= nn, "a point outside the box", box=(w, s, e, nn), at=(x, y))
    ctx.check(w in [p[0] for p in P] and e in [p[0] for p in P], "box wider than the points")
    L = [[(c + rng.uniform(-40, 40), rng.uniform(-60, 60)) for _ in range(rng.randrange(2, 5))] for _ in range(rng.randrange(1, 6))]
    m = Multiline(L, crs=LonLatWGS84)
    w, s, e, nn = m.bbox()
    for p in L:
        for x, y in samples(p, False, 40):
            ctx.check(w - 1e-7 <= x <= e + 1e-7 and s - 1e-7 <= y <= nn + 1e-7, "a member outside the box", box=(w, s, e, nn), at=(x, y))
    ctx.event("cases")
    ctx.distinct(P)


@scenario(quick=400, thorough=6000, need={"across": 200, "members": 800})
def geographical_members(ctx):
    """the box of a geographical collection covers every member, wherever they lie, and is made of member edges"""
    rng = ctx.rng
    c = 180.0 if rng.random() < 0.7 else rng.uniform(-180, 180)
    fix = lambda x: (x + 180.0) % 360.0 - 180.0
    W = rng.choice([5.0, 40.0, 100.0])
    kind = rng.choice(["Multiline", "Multipolygon"])
    L = []
    for _ in range(rng.randrange(1, 6)):
        cx, cy, r = c + rng.uniform(-W, W), rng.uniform(-55, 55), rng.uniform(1, 25)
        if kind == "Multiline":
            L.append([(fix(cx + rng.uniform(-r, r)), cy + rng.uniform(-r, r)) for _ in range(rng.randrange(2, 5))])
        else:
            L.append([(fix(a), b) for a, b in gen.star_polygon(rng, cx, cy, r, n=rng.randrange(3, 7))])
    m = Multiline(L, crs=LonLatWGS84) if kind == "Multiline" else Multipolygon([[p] for p in L], crs=LonLatWGS84)
    ctx.note(kind=kind, members=L)
    w, s, e, n = m.bbox()
    width = e - w if e >= w else e - w + 360.0
    boxes = []
    for p, part in zip(L, m):
        b = part.bbox()
        boxes.append(b)
        for x, y in samples(p, kind == "Multipolygon", 12):
            ctx.check((x - w + 1e-7) % 360.0 <= width + 2e-7 and s - 1e-7 <= y <= n + 1e-7, "a member outside the box of the collection",
                      box=(w, s, e, n), at=(x, y))
        ctx.event("members")
    ctx.check((w, e) == (-180.0, 180.0) or (w in [b[0] for b in boxes] and e in [b[2] for b in boxes]), "box of the collection wider than its members",
              box=(w, s, e, n), boxes=boxes)
    ctx.check(s == min(b[1] for b in boxes) and n == max(b[3] for b in boxes), "latitudes of the box of the collection")
    if any(b[0] > b[2] for b in boxes):
        ctx.event("across")
    ctx.eq(tuple(m.bbox()), (w, s, e, n), "box asked again")
    ctx.distinct(kind, repr(L)[:200])


@scenario(quick=150, thorough=2000, need={"other_system": 120, "heights": 25})
def other_systems(ctx):
    """boxes in projected systems of another datum"""
    rng = ctx.rng
    A = rng.choice(other_datums.SYSTEMS)
    others = [c for c in other_datums.SYSTEMS if isinstance(c, ProjectedCRS) and c is not A]
    pa = other_datums.mover(LonLatWGS84, A)
    V = [pa(other_datums.near(rng)) for _ in range(rng.randrange(3, 7))]
    kind = rng.choice([Line, Polygon, Multipoint, Multiline, Multipolygon])
    if rng.random() < 0.3:
        # heights have no part in a box
        G = [p + (rng.uniform(-1e7, 1e7),) for p in V]
        ctx.event("heights")
    else: G = V
    if kind is Multiline: g = Multiline([G, G[:2]], crs=A)
    elif kind is Multipolygon: g = Multipolygon([[G], [G[:3]]], crs=A)
    else: g = kind(G, crs=A)
    B = [rng.choice(others) for _ in range(rng.choice([1, 2, 4]))] + ([A] if isinstance(A, ProjectedCRS) else [])
    ctx.note(A=A.name, B=[b.name for b in B], V=V)
    # one after another, each asked for in different ways
    for _ in range(rng.choice([1, 3, 6])):
        b = rng.choice(B)
        mv = other_datums.mover(A, b)
        W = V if b is A else [mv(p) for p in V]
        want = (min(p[0] for p in W), min(p[1] for p in W), max(p[0] for p in W), max(p[1] for p in W))
        how = rng.randrange(4)
        if how == 0: got = g.bbox(crs=b)
        elif how == 1: got = g.bbox(b)
        else:
            got = g.extent(crs=b) if how == 2 else g.extent(b)
            got = (got[0], got[2], got[1], got[3])
        ctx.check(all(abs(a - c) < 1e-3 for a, c in zip(got, want)), "box in a projected system of another datum", got=got, want=want, system=b.name)
    ctx.event("other_system")
    ctx.distinct(A.name, len(B), V)


@scenario(quick=400, thorough=5000, need={"over": 100, "not over": 50})
def dateline_flag(ctx):
    """crosses_dateline of lines, polygons and their collections with edges of any length"""
    rng = ctx.rng
    crs = rng.choice([LonLatWGS84, SphericalEarth, LonLatNAD83])
    ring = rng.random() < 0.5
    st = rng.randrange(3)
    c, r = rng.uniform(-180, 180), rng.choice([1, 60, 170])
    P = [(rng.uniform(-180, 180) if st == 0 else (c + rng.uniform(-r, r) + 180) % 360 - 180 if st == 1 else rng.uniform(-r, r) / 2,
          rng.uniform(-90, 90)) for _ in range(rng.randrange(3, 6))]
    E = list(zip(P, P[1:] + P[:1] if ring else P[1:]))
    if any(abs(abs(d[0] - c[0]) - 180) < 1e-6 for c, d in E):
        raise Skip()
    over = any(abs(d[0] - c[0]) > 180 for c, d in E)
    V = [p + (1.0,) for p in P] if rng.random() < 0.2 else P
    ctx.note(V=V, ring=ring)
    ctx.eq(bool((Polygon if ring else Line)(V, crs=crs).crosses_dateline()), over, "crosses_dateline")
    ctx.event("over" if over else "not over")
    ctx.distinct(P, ring)
