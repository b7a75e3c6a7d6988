"""C13 Multiline / Multipolygon spatial queries equal a scan of every member."""
import math
from fractions import Fraction
from lib.mon import scenario, Skip
from lib import gen, geo
import karta
from lib import systems as other_datums

RULE = ("a case is a collection of 0-600 (some up to 4000) lines or polygons - spread, clustered, identical, axis-parallel, "
        "degenerate, three-dimensional - queried by boxes, lines and polygons; each answer is compared with an exhaustive "
        "exact scan, leaving out members for which the answer hinges on contact within rounding; distinct by members and query")


def members(rng, n, kind, style):
    """list of coordinate lists"""
    out = []
    S = rng.choice([10.0, 100.0, 1e6])
    base = None
    for k in range(n):
        if style == "identical" and base is not None and rng.random() < 0.8:
            out.append(list(base))
            continue
        cx, cy = rng.uniform(0, S), rng.uniform(0, S)
        if style == "cluster":
            cx, cy = S * 0.5 + rng.gauss(0, S * 0.02), S * 0.5 + rng.gauss(0, S * 0.02)
        if style == "sorted":
            cx = S * k / n
            cy = S * 0.5 + rng.uniform(-1, 1)
        r = S * rng.choice([0.005, 0.02, 0.1])
        if kind == "polygon":
            p = gen.star_polygon(rng, cx, cy, r, n=rng.randrange(3, 7))
        else:
            m = rng.randrange(2, 6)
            p = [(cx, cy)]
            for _ in range(m - 1):
                p.append((p[-1][0] + rng.uniform(-r, r), p[-1][1] + rng.uniform(-r, r)))
            if style == "axis" or rng.random() < 0.05:
                if rng.random() < 0.5:
                    p = [(cx, b) for a, b in p]
                else:
                    p = [(a, cy) for a, b in p]
        base = p
        out.append(p)
    return out, S


def build(ctx, rng, kind=None, big=False):
    kind = kind or rng.choice(["line", "polygon"])
    n = rng.choice([1800, 2700, 3500]) if big else rng.choice([0, 1, 2, 5, 20, 49, 50, 51, 52, 80, 101, 150, 300, 600])
    style = rng.choice(["spread", "spread", "cluster", "identical", "axis", "sorted"])
    M, S = members(rng, n, kind, style)
    z = rng.random() < 0.15
    if z:
        Mz = [[(a, b, rng.uniform(-5, 5)) for a, b in p] for p in M]
    else:
        Mz = M
    if kind == "line":
        if rng.random() < 0.3 and n:
            mp = karta.Multiline([karta.Line(p, properties={"id": i}) for i, p in enumerate(Mz)])
        else:
            mp = karta.Multiline(Mz, data={"id": list(range(n))} if n else None)
    else:
        if rng.random() < 0.3 and n:
            mp = karta.Multipolygon([karta.Polygon(p, properties={"id": i}) for i, p in enumerate(Mz)])
        else:
            mp = karta.Multipolygon([[p] for p in Mz], data={"id": list(range(n))} if n else None)
    ctx.note(kind=kind, n=n, style=style, S=S, z=z)
    return mp, M, S, kind, style, z


def ids(r):
    if len(r) == 0:
        return []
    return list(r.data.getfield("id"))


def report(ctx, got, must, mustnot, what):
    g = set(got)
    ctx.check(len(g) == len(got), what + ": a member is returned twice", got=sorted(got)[:50])
    ctx.check(must <= g, what + ": members missing", missing=sorted(must - g)[:20])
    ctx.check(not (mustnot & g), what + ": members that do not qualify", extra=sorted(mustnot & g)[:20])


def rnd_box(rng, S, M):
    if M and rng.random() < 0.3:
        p = rng.choice(M)
        cx, cy = p[0]
    else:
        cx, cy = rng.uniform(0, S), rng.uniform(0, S)
    w, h = [S * rng.choice([0.001, 0.02, 0.1, 0.4, 2.0]) * rng.uniform(0.5, 1) for _ in range(2)]
    return (cx - w, cy - h, cx + w, cy + h)


def boxes(ctx, rng, mp, M, S, nq):
    bb = [(min(a for a, b in p), min(b for a, b in p), max(a for a, b in p), max(b for a, b in p)) for p in M]
    for _ in range(nq):
        q = rnd_box(rng, S, M)
        e = 1e-9 * S
        inn, near, touch, apart = set(), set(), set(), set()
        for i, b in enumerate(bb):
            d = [b[0] - q[0], b[1] - q[1], q[2] - b[2], q[3] - b[3]]
            if min(d) > e:
                inn.add(i)
            elif min(d) > -e:
                near.add(i)
            o = [q[2] - b[0], b[2] - q[0], q[3] - b[1], b[3] - q[1]]
            if min(o) > e:
                touch.add(i)
            elif min(o) < -e:
                apart.add(i)
        allids = set(range(len(M)))
        r = mp.within_bbox(q)
        report(ctx, ids(r), inn, allids - inn - near, "within_bbox")
        if len(r):
            k = rng.randrange(len(r))
            got = geo.outer(r, k)
            ctx.eq([tuple(map(float, t[:2])) for t in got], [tuple(map(float, t)) for t in M[ids(r)[k]]], "within_bbox: geometry and attributes of a member no longer match")
        r = mp.touching_bbox(q)
        report(ctx, ids(r), touch, apart, "touching_bbox")
        k = rng.randrange(1, 6)
        for fn, pool in ((mp.within_bbox, inn), (mp.touching_bbox, touch)):
            if len(pool) > 0:
                r = ids(fn(q, max_results=k))
                ctx.check(min(k, len(pool)) <= len(r) <= k, "max_results", k=k, got=len(r), available=len(pool))
        ctx.event("queries", 2)
        ctx.event("hits", len(touch))
        ctx.event("misses", len(apart))


@scenario(quick=260, thorough=2600, need={"queries": 1000, "hits": 5000, "misses": 20000})
def box_queries(ctx):
    """within_bbox, touching_bbox, max_results"""
    rng = ctx.rng
    mp, M, S, kind, style, z = build(ctx, rng)
    boxes(ctx, rng, mp, M, S, 4)
    ctx.distinct(kind, len(M), style, M[:2])


@scenario(quick=14, thorough=140, need={"queries": 20, "hits": 500})
def box_queries_deep(ctx):
    """collections large enough for the index to be three levels deep"""
    rng = ctx.rng
    mp, M, S, kind, style, z = build(ctx, rng, big=True)
    boxes(ctx, rng, mp, M, S, 3)
    ctx.distinct(kind, len(M), style, M[:2])


@scenario(quick=200, thorough=2000, need={"touch_hits": 300, "within_hits": 100, "apart": 5000})
def shape_queries(ctx):
    """touching(Line/Polygon), within(Polygon)"""
    rng = ctx.rng
    kind = rng.choice(["line", "polygon"])
    n = rng.choice([1, 5, 30, 60, 120])
    style = rng.choice(["spread", "cluster", "sorted"])
    M, S = members(rng, n, kind, style)
    mp = karta.Multiline(M, data={"id": list(range(n))}) if kind == "line" else \
        karta.Multipolygon([[p] for p in M], data={"id": list(range(n))})
    q = gen.star_polygon(rng, rng.uniform(0.2, 0.8) * S, rng.uniform(0.2, 0.8) * S, S * rng.choice([0.05, 0.3, 0.8]))
    ql = [(rng.uniform(0, S), rng.uniform(0, S)) for _ in range(rng.randrange(2, 5))]
    ctx.note(kind=kind, n=n, style=style, q=q, ql=ql)
    e = 1e-9 * S
    must, mustnot, win, wout, lt, lf = set(), set(), set(), set(), set(), set()
    for i, p in enumerate(M):
        ring = kind == "polygon"
        c = geo.crossing(p, ring, q, True, e)       # True / False / None (hinges on contact)
        inside = gen.winding(p[0][0], p[0][1], q) != 0
        if c is True:
            must.add(i); wout.add(i)
        elif c is False:
            (must if inside else mustnot).add(i)
            (win if inside else wout).add(i)
        c = geo.crossing(p, ring, ql, False, e)
        if c is True:
            lt.add(i)
        elif c is False:
            lf.add(i)
    poly = karta.Polygon(q)
    report(ctx, ids(mp.touching(poly)), must, mustnot, "touching(Polygon)")
    report(ctx, ids(mp.within(poly)), win, wout, "within(Polygon)")
    report(ctx, ids(mp.touching(karta.Line(ql))), lt, lf, "touching(Line)")
    ctx.event("touch_hits", len(must) + len(lt))
    ctx.event("within_hits", len(win))
    ctx.event("apart", len(mustnot) + len(lf))
    ctx.distinct(kind, n, q, ql)


@scenario(quick=260, thorough=4000, need={"queries": 400, "hits": 200, "misses": 600, "dateline": 60})
def systems(ctx):
    """geographical collections (great-circle edges, across the dateline) and queries in another system equal a scan by the same predicate"""
    rng = ctx.rng
    other = rng.random() < 0.08
    crs = karta.crs.WebMercator if other else rng.choice([karta.crs.SphericalEarth, karta.crs.LonLatWGS84])
    qcrs = karta.crs.LonLatWGS84 if other else crs
    kind = rng.choice(["line", "polygon"])
    n = rng.randrange(1, 6) if other else rng.choice([1, 3, 8, 60])
    lon = 180.0 if rng.random() < 0.5 and not other else rng.uniform(-120, 120)
    lat = rng.choice([0.0, 30.0, -55.0, 65.0])
    fix = lambda x: (x + 180.0) % 360.0 - 180.0
    R = 30.0

    def shape(poly, r):
        cx, cy = rng.uniform(-R, R), max(-75.0, min(75.0, lat + rng.uniform(-R, R) / 2))
        if poly:
            return [(fix(lon + a), max(-80.0, min(80.0, b))) for a, b in gen.star_polygon(rng, cx, cy, r, n=rng.randrange(3, 7))]
        return [(fix(lon + cx + rng.uniform(-r, r)), max(-80.0, min(80.0, cy + rng.uniform(-r, r)))) for _ in range(rng.randrange(2, 4))]
    M = [shape(kind == "polygon", rng.choice([1.0, 5.0, 20.0])) for _ in range(n)]
    ctx.note(crs=crs.name, qcrs=qcrs.name, kind=kind, members=M if n < 9 else n)
    P = M
    if other:
        P = [[tuple(map(float, crs.project(*p))) for p in m] for m in M]
    mp = karta.Multiline(P, data={"id": list(range(n))}, crs=crs) if kind == "line" else \
        karta.Multipolygon([[p] for p in P], data={"id": list(range(n))}, crs=crs)
    if lon == 180.0:
        ctx.event("dateline")
    for _ in range(2):
        q = shape(True, rng.choice([5.0, 20.0]))
        line = rng.random() < 0.4
        g = karta.Line(q[:3], crs=qcrs) if line else karta.Polygon(q, crs=qcrs)
        parts = list(mp)
        meets = [bool(g.intersects(p)) for p in parts]
        first = [False if line else bool(g.contains(p[0])) for p in parts]
        want = {i for i in range(n) if meets[i] or first[i]}
        ctx.note(query=q, line=line)
        report(ctx, ids(mp.touching(g)), want, set(range(n)) - want, "touching (another system or geographical)")
        if not line:
            want = {i for i in range(n) if first[i] and not meets[i]}
            report(ctx, ids(mp.within(g)), want, set(range(n)) - want, "within (another system or geographical)")
        ctx.event("queries", 2 - line)
        ctx.event("hits", len(want))
        ctx.event("misses", n - len(want))
        ctx.distinct(crs.name, kind, tuple(q), n)


@scenario(quick=80, thorough=1200, need={"other_system": 70, "other_hits": 60})
def other_systems(ctx):
    """the query geometry on another datum: as if it had been given in the collection's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(karta.crs.LonLatWGS84, A)
    n = rng.choice([3, 12])
    M = []
    for _ in range(n):
        x, y = other_datums.near(rng, 0.15)
        M.append([pa(other_datums.near(rng, 0.02, x, y)) for _ in range(3)])
    poly = rng.random() < 0.5
    mp = karta.Multipolygon([[m] for m in M], data={"id": list(range(n))}, crs=A) if poly else karta.Multiline(M, data={"id": list(range(n))}, crs=A)
    ring = [to_b(p) for p in gen.star_polygon(rng, 10.0, 50.0, 0.12, n=rng.randrange(3, 9))]
    G, L = karta.Polygon(ring, crs=B), karta.Line(ring[:3], crs=B)
    ctx.note(A=A.name, B=B.name, M=M, ring=ring, poly=poly)
    back = other_datums.mover(A, B)
    W = [(karta.Polygon if poly else karta.Line)([back(p) for p in m], crs=B) for m in M]
    meets = [bool(G.intersects(w)) for w in W]
    first = [bool(G.contains(w[0])) for w in W]
    want = [i for i in range(n) if meets[i] or first[i]]
    ctx.eq(sorted(int(i) for i in ids(mp.touching(G))), want, "touching a polygon on another datum")
    inner = [i for i in range(n) if first[i] and not meets[i]]
    ctx.eq(sorted(int(i) for i in ids(mp.within(G))), inner, "within a polygon on another datum")
    ctx.eq(sorted(int(i) for i in ids(mp.touching(L))), [i for i in range(n) if L.intersects(W[i])], "touching a line on another datum")
    ctx.event("other_system")
    ctx.event("other_hits", len(want))
    ctx.distinct(A.name, B.name, M)
