"""C16 Polygon.contains: inside, boundary, holes, islands, poles and the dateline."""
import math
from fractions import Fraction as F
import numpy as np
from lib.mon import scenario, Skip
from lib import gen, geo
from karta import Point, Polygon, Line
from karta.vector.geometry import Multipoint, Multipolygon
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, LonLatNAD83, WebMercator, NSIDCNorth, ProjectedCRS
from lib import systems as other_datums

RULE = ("a case is a simple polygon - on a lattice, in general position, with holes and islands, or on the sphere around a pole, "
        "across the dateline or elsewhere - and points inside, outside, on edges and on vertices; distinct by polygon and points")

PCRS = [ProjectedCRS("+proj=utm +zone=7 +ellps=WGS84 +datum=WGS84", "UTM 7N"), WebMercator, NSIDCNorth]


def is_simple(P):
    S = geo.segs(P, True)
    n = len(S)
    for i in range(n):
        if S[i][0] == S[i][1]:
            return False
        for j in range(i + 1, n):
            r = geo.seg_relation(*(S[i] + S[j]))
            adj = (j == i + 1) or (i == 0 and j == n - 1)
            if not adj and r:
                return False
            if adj:
                # neighbours may only share the one vertex
                a = S[i][0] if j == i + 1 else S[i][1]
                b = S[j][1] if j == i + 1 else S[j][0]
                sh = S[i][1] if j == i + 1 else S[i][0]
                if geo.orient(a, sh, b) == 0 and (a[0] - sh[0]) * (b[0] - sh[0]) + (a[1] - sh[1]) * (b[1] - sh[1]) > 0:
                    return False
    return True


def lattice_polygon(rng, w, h):
    for _ in range(60):
        st = rng.randrange(3)
        if st == 0:
            P = [(rng.randrange(w), rng.randrange(h)) for _ in range(rng.randrange(3, 7))]
        elif st == 1:       # staircase / comb with axis-parallel edges
            n = rng.randrange(2, 5)
            xs = sorted(rng.sample(range(w), min(w, n + 1)))
            P = []
            for a, b in zip(xs, xs[1:]):
                y = rng.randrange(1, h)
                P += [(a, y), (b, y)]
            P += [(xs[-1], 0), (xs[0], 0)]
            P = [p for i, p in enumerate(P) if p != P[i - 1]]
        else:
            P = gen.star_polygon(rng, w / 2.0, h / 2.0, w / 2.0, n=rng.randrange(3, 9))
            P = [(int(round(a)), int(round(b))) for a, b in P]
        if len(P) >= 3 and is_simple(P):
            if rng.random() < 0.5:
                P.reverse()
            k = rng.randrange(len(P))
            return P[k:] + P[:k]
    raise Skip()


def where(P, p):
    """exact: 1 inside, 0 boundary, -1 outside"""
    for a, b in geo.segs(P, True):
        if geo.orient(a, b, p) == 0 and geo.on_box(a, b, p):
            return 0
    return 1 if gen.winding(p[0], p[1], P) else -1


@scenario(quick=450, thorough=8000, need={"inside": 2000, "outside": 2000, "boundary": 1500})
def lattice(ctx):
    """every lattice and half-lattice point of a simple lattice polygon"""
    rng = ctx.rng
    w, h = rng.choice([(4, 4), (6, 5), (9, 9), (14, 6)])
    P = lattice_polygon(rng, w, h)
    k = rng.choice([1.0, 0.25, 64.0])
    o = rng.choice([0, 0, 1000, 1 << 20])
    ctx.note(P=P, scale=k, offset=o)
    z = rng.random() < 0.15
    f = lambda a, b: (k * (a + o), k * (b - o))
    g = Polygon([f(a, b) + ((1.5,) if z else ()) for a, b in P])
    if rng.random() < 0.2:
        g = Multipolygon([[[f(a, b) for a, b in P]]])[0]
    pts = [(F(i, 2), F(j, 2)) for i in range(-2, 2 * w + 2) for j in range(-2, 2 * h + 2)]
    rng.shuffle(pts)
    pts = pts[:30] + [(F(a), F(b)) for a, b in P]
    for (a, b), (c, d) in geo.segs(P, True):
        pts.append((F(a + c, 2), F(b + d, 2)))
    for p in pts:
        wh = where(P, p)
        q = f(float(p[0]), float(p[1]))
        got = g.contains(Point(q))
        ctx.eq(bool(got), wh >= 0, "contains: point " + {1: "inside", 0: "on the boundary", -1: "outside"}[wh] + " %s" % (q,))
        ctx.event({1: "inside", 0: "boundary", -1: "outside"}[wh])
    mp = Multipoint([f(float(p[0]), float(p[1])) for p in pts])
    ctx.eq(bool(mp.any_within_poly(g)), any(where(P, p) >= 0 for p in pts), "any_within_poly")
    few = rng.sample(pts, min(len(pts), rng.randrange(1, 4))) if rng.random() < 0.5 else [p for p in pts if where(P, p) < 0][:rng.randrange(1, 30)]
    if few:
        some = any(where(P, p) >= 0 for p in few)
        ctx.eq(bool(Multipoint([f(float(p[0]), float(p[1])) for p in few]).any_within_poly(g)), some, "any_within_poly of a few points")
        ctx.event("some" if some else "none")
    ctx.distinct(P, k, o)


@scenario(quick=300, thorough=5000, need={"inside": 800, "outside": 800})
def general(ctx):
    """polygons with many vertices at any scale"""
    rng = ctx.rng
    S = 10.0 ** rng.randrange(-7, 8)
    O = S * rng.choice([0, 1, 1e4])
    P = gen.star_polygon(rng, O, -O, S, n=rng.randrange(3, 60))
    ctx.note(P=P)
    g = Polygon(P)
    for _ in range(12):
        st = rng.randrange(3)
        if st == 0:
            p = (O + rng.uniform(-1.1, 1.1) * S, -O + rng.uniform(-1.1, 1.1) * S)
        elif st == 1:       # level with a vertex
            v = rng.choice(P)
            p = (O + rng.uniform(-1.1, 1.1) * S, v[1])
        else:
            v = rng.choice(P)
            p = (v[0] + rng.gauss(0, 1e-3) * S, v[1] + rng.gauss(0, 1e-3) * S)
        if gen.dist_to_ring(p[0], p[1], P) < 1e-9 * (S + O):
            continue
        w = gen.winding(F(p[0]), F(p[1]), [(F(a), F(b)) for a, b in P]) != 0
        ctx.eq(bool(g.contains(Point(p))), w, "contains %r" % (p,))
        ctx.event("inside" if w else "outside")
    ctx.distinct(P[:3], S)


@scenario(quick=250, thorough=4000, need={"in_hole": 100, "in_island": 40, "in_body": 200, "hole_boundary": 100})
def holes(ctx):
    """sub-polygons are excluded, islands within them included"""
    rng = ctx.rng
    m = 4
    nest = rng.randrange(1, 5)
    ox, oy = rng.randrange(-50, 50), rng.randrange(-50, 50)
    R = m * (nest + 1) * 2
    def sq(r, cx=0, cy=0):
        P = [(ox + cx - r, oy + cy - r), (ox + cx + r, oy + cy - r), (ox + cx + r, oy + cy + r), (ox + cx - r, oy + cy + r)]
        if rng.random() < 0.3:
            P = [(ox + cx - r, oy + cy), (ox + cx, oy + cy - r), (ox + cx + r, oy + cy), (ox + cx, oy + cy + r)]
            return P if rng.random() < 0.5 else P[::-1]
        return P if rng.random() < 0.5 else P[::-1]
    # nested chain about one centre plus, sometimes, a second hole elsewhere
    radii = [R // (2 ** i) for i in range(nest + 1) if R // (2 ** i) >= 1]
    chain = [sq(r) for r in radii]
    g = None
    for P in reversed(chain):
        g = Polygon(P, subs=[g] if g is not None else [])
    second = None
    if rng.random() < 0.5:
        big = [(ox - R - 1, oy - R - 1), (ox + 4 * R, oy - R - 1), (ox + 4 * R, oy + R + 1), (ox - R - 1, oy + R + 1)]
        second = sq(R // 2, 5 * R // 2, 0)
        g = Polygon(big, subs=[g, Polygon(second)] if rng.random() < 0.5 else [Polygon(second), g])
        chain = [big] + chain
    ctx.note(chain=chain, second=second)
    for _ in range(40):
        p = (ox + rng.randrange(-R - 2, (4 * R if second else R) + 2), oy + rng.randrange(-R - 2, R + 3))
        w = [where(P, p) for P in chain]
        if second and where(second, p) >= 0:
            w2 = where(second, p)
            want = w2 == 0
            ctx.event("hole_boundary" if w2 == 0 else "in_hole")
        elif 0 in w:
            want = True
            ctx.event("hole_boundary" if w.index(0) else "outer_boundary")
        else:
            depth = sum(x == 1 for x in w)
            want = depth % 2 == 1
            ctx.event("outside" if depth == 0 else "in_body" if depth == 1 else "in_hole" if not want else "in_island")
        ctx.eq(bool(g.contains(Point(p))), want, "contains with sub-polygons at %s" % (p,))
    ctx.distinct(chain, second)


def xyz(lo, la):
    l, f = math.radians(lo), math.radians(la)
    return np.array([math.cos(f) * math.cos(l), math.cos(f) * math.sin(l), math.sin(f)])


def sph_offset(c, r, az):
    """point at angular distance r, azimuth az from c (degrees)"""
    f, a, d = math.radians(c[1]), math.radians(az), math.radians(r)
    la = math.asin(math.sin(f) * math.cos(d) + math.cos(f) * math.sin(d) * math.cos(a))
    dl = math.atan2(math.sin(a) * math.sin(d) * math.cos(f), math.cos(d) - math.sin(f) * math.sin(la))
    return ((c[0] + math.degrees(dl) + 180) % 360 - 180, math.degrees(la))


@scenario(quick=220, thorough=3000, need={"inside": 250, "outside": 400, "polar": 40, "dateline": 25})
def sphere(ctx):
    """polygons star-shaped about a centre on the sphere: around a pole, over the dateline, either winding"""
    rng = ctx.rng
    st = rng.choice(["npole", "spole", "dateline", "dateline"])
    R = rng.choice([3, 15, 35])
    if st == "npole":
        c = (rng.uniform(-180, 180), 90 - rng.uniform(0, 0.2) * R)
    elif st == "spole":
        c = (rng.uniform(-180, 180), -90 + rng.uniform(0, 0.2) * R)
    else:
        c = ((180 + rng.uniform(-0.2, 0.2) * R + 180) % 360 - 180, rng.uniform(-45, 45))
    n = rng.randrange(5, 14)
    az = [360.0 * (k + rng.uniform(-0.3, 0.3)) / n for k in range(n)]
    rad = [R * rng.uniform(0.5, 1) for _ in az]
    P = [sph_offset(c, r, a) for r, a in zip(rad, az)]
    if rng.random() < 0.5:
        P.reverse()
    if any(abs(p[1]) > 89.9 for p in P):
        raise Skip()
    crs = rng.choice([SphericalEarth, LonLatWGS84])
    ctx.note(P=P, kind=st, crs=crs.name, centre=c)
    g = Polygon(P, crs=crs)
    polar = st != "dateline"
    # by construction the polygon surrounds c with inner radius about 0.5 R cos(pi/n) > .2R (the pole's distance)
    V = [xyz(*p) for p in P]
    def inside(q):
        """same side as c of the boundary: parity of boundary crossings of the arc q-c; None if it hinges"""
        cnt = 0
        C, Q = xyz(*c), xyz(*q)
        n1 = np.cross(C, Q)
        if np.linalg.norm(n1) < 1e-6:
            return None
        n1 /= np.linalg.norm(n1)
        for a, b in zip(V, V[1:] + V[:1]):
            n2 = np.cross(a, b); n2 /= np.linalg.norm(n2)
            p = np.cross(n1, n2)
            l = np.linalg.norm(p)
            if l < 1e-6:
                return None
            for s in (1, -1):
                x = s * p / l
                m = min(np.dot(np.cross(n1, C), x), np.dot(np.cross(Q, n1), x), np.dot(np.cross(n2, a), x), np.dot(np.cross(b, n2), x))
                if m > 1e-4:
                    cnt += 1
                elif m > -1e-4:
                    return None
        return cnt % 2 == 0
    pole = (0.0, 90.0 if st == "npole" else -90.0)
    if polar:
        w = inside(pole)
        if w is None:
            raise Skip()
        if w:
            ctx.check(bool(g.ispolar()), "ispolar of a polygon around a pole")
            ctx.event("polar")
    else:
        if any(abs(p[1]) > 85 for p in P):
            raise Skip()
        ctx.check(not g.ispolar(), "ispolar of a polygon across the dateline")
        if g.crosses_dateline():
            ctx.event("dateline")
    # far from edges the ellipsoid makes no difference: edges differ by < 0.3 % of their length
    for _ in range(10):
        k = rng.random()
        if k < 0.5:
            q = sph_offset(c, R * rng.uniform(0.05, 1.6), rng.uniform(0, 360))
        elif k < 0.75:
            q = (rng.uniform(-180, 180), rng.uniform(-89, 89))
        else:
            q = ((c[0] + 180 + rng.uniform(-R, R) + 180) % 360 - 180, max(-89, min(89, -c[1] + rng.uniform(-R, R))))   # about the antipode
        w = inside(q)
        if w is None:
            continue
        # margin to edges
        Q = xyz(*q)
        near = False
        for a, b in zip(V, V[1:] + V[:1]):
            n2 = np.cross(a, b); n2 /= np.linalg.norm(n2)
            if abs(np.dot(n2, Q)) < 0.01 * math.radians(R) + (0.002 if crs is not SphericalEarth else 0) and np.dot(Q, C0(a, b)) > 0:
                near = True
        if near:
            continue
        got = bool(g.contains(Point(q, crs=crs)))
        ctx.eq(got, w, "contains on the sphere (%s) at %s" % (st, q))
        ctx.event("inside" if w else "outside")
    ctx.distinct(P)


def C0(a, b):
    return (a + b) / np.linalg.norm(a + b)


@scenario(quick=60, thorough=900, need={"planar_like": 40})
def geographic_plain(ctx):
    """small polygons away from poles and dateline behave as planar ones"""
    rng = ctx.rng
    c = (rng.uniform(-150, 150), rng.uniform(-60, 60))
    P = gen.star_polygon(rng, c[0], c[1], rng.choice([0.01, 1.0, 5.0]))
    r = max(abs(a - c[0]) for a, b in P)
    crs = rng.choice([SphericalEarth, LonLatWGS84, LonLatNAD83])
    g = Polygon(P, crs=crs)
    ctx.note(P=P, crs=crs.name)
    for _ in range(6):
        q = (c[0] + rng.uniform(-1.5, 1.5) * r, c[1] + rng.uniform(-1.5, 1.5) * r)
        if gen.dist_to_ring(q[0], q[1], P) < 0.1 * r:
            continue
        ctx.eq(bool(g.contains(Point(q, crs=crs))), gen.winding(q[0], q[1], P) != 0, "contains in geographical coordinates")
        ctx.event("planar_like")
    ctx.distinct(P)


@scenario(quick=16, thorough=200, need={"reprojected": 30})
def point_in_other_crs(ctx):
    """the point is reprojected to the polygon's system"""
    rng = ctx.rng
    crs = rng.choice(PCRS)
    lon0, lat0 = rng.uniform(-143, -139), rng.uniform(60, 70)
    x0, y0 = crs.project(lon0, lat0)
    r = rng.choice([500.0, 20000.0])
    P = gen.star_polygon(rng, x0, y0, r)
    g = Polygon(P, crs=crs, subs=[Polygon(gen.star_polygon(rng, x0, y0, r * 0.1), crs=crs)] if rng.random() < 0.3 else None)
    ctx.note(P=P, crs=crs.name)
    for _ in range(5):
        q = (x0 + rng.uniform(-1.2, 1.2) * r, y0 + rng.uniform(-1.2, 1.2) * r)
        if gen.dist_to_ring(q[0], q[1], P) < 0.02 * r or any(gen.dist_to_ring(q[0], q[1], [tuple(v) for v in s.vertices()]) < 0.02 * r for s in g.subs):
            continue
        lo, la = crs.project(q[0], q[1], inverse=True)
        want = gen.winding(q[0], q[1], P) != 0 and not any(gen.winding(q[0], q[1], [tuple(v) for v in s.vertices()]) for s in g.subs)
        ctx.eq(bool(g.contains(Point((lo, la), crs=LonLatWGS84))), want, "contains of a point in another coordinate system")
        ctx.event("reprojected")
    ctx.distinct(P)


@scenario(quick=150, thorough=2500, need={"other_system": 800, "other_inside": 150})
def other_systems(ctx):
    """points on another datum: as if they had been given in the polygon's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(LonLatWGS84, A)
    ring = [pa(p) for p in gen.star_polygon(rng, 10.0, 50.0, 0.15, n=rng.randrange(3, 9))]
    subs = [Polygon([pa(p) for p in gen.star_polygon(rng, 10.0, 50.0, 0.03, n=4)], crs=A)] if rng.random() < 0.3 else []
    P = Polygon(ring, subs=subs, crs=A)
    ctx.note(A=A.name, B=B.name, ring=ring)
    for _ in range(8):
        q = to_b(other_datums.near(rng))
        ctx.note(point=q)
        q2 = to_a(q)
        want = bool(P.contains(Point(q2, crs=A)))
        ctx.eq(bool(P.contains(Point(q, crs=B))), want, "contains a point on another datum")
        ctx.event("other_system")
        ctx.event("other_inside", int(want))
    ctx.distinct(A.name, B.name, ring)
