"""C15 intersects / intersections against exact segment predicates."""
import math
from fractions import Fraction as F
import numpy as np
from lib.mon import scenario, Skip
from lib import gen, geo
import karta
from karta import Line, Polygon
from karta.crs import Cartesian, SphericalEarth, LonLatWGS84, LonLatNAD83, WebMercator, NSIDCNorth, ProjectedCRS
from lib import systems as other_datums

RULE = ("a case is a pair of lines or polygons: on a small integer lattice (contacts, overlaps, retraced and vertical segments, "
        "repeated vertices) decided exactly, in general position decided with a margin, and great-circle arcs decided in "
        "three dimensions with a margin; distinct by the pair of geometries")

PCRS = [ProjectedCRS("+proj=utm +zone=7 +ellps=WGS84 +datum=WGS84", "UTM 7N"), WebMercator, NSIDCNorth]


def mk(P, ring, crs=Cartesian, z=None):
    v = P if z is None else [tuple(p) + (zz,) for p, zz in zip(P, z)]
    return Polygon(v, crs=crs) if ring else Line(v, crs=crs)


def lattice(rng, n, ring, w, h):
    P = [(rng.randrange(w), rng.randrange(h)) for _ in range(n)]
    if rng.random() < 0.25 and n > 2:            # retrace or repeat
        k = rng.randrange(1, n)
        P = P[:k] + [P[k - 1]] + P[k:] if rng.random() < 0.5 else P + P[::-1][1:]
    if rng.random() < 0.2:
        x = rng.randrange(w)
        P = [(x, b) for a, b in P]
    elif rng.random() < 0.2:
        y = rng.randrange(h)
        P = [(a, y) for a, b in P]
    return P


def exact_points(A, ra, B, rb):
    """exact common points of non-parallel segment pairs"""
    out = {}
    for a, b in geo.segs(A, ra):
        for c, d in geo.segs(B, rb):
            r0, r1 = b[0] - a[0], b[1] - a[1]
            s0, s1 = d[0] - c[0], d[1] - c[1]
            den = r0 * s1 - r1 * s0
            if den == 0:
                continue
            q0, q1 = c[0] - a[0], c[1] - a[1]
            t = F(q0 * s1 - q1 * s0, den)
            u = F(q0 * r1 - q1 * r0, den)
            if 0 <= t <= 1 and 0 <= u <= 1:
                out[(a[0] + t * r0, a[1] + t * r1)] = 1
    return list(out)


def met_pairs(A, ra, B, rb):
    """number of pairs of segments, not parallel, with a common point"""
    n = 0
    for a, b in geo.segs(A, ra):
        for c, d in geo.segs(B, rb):
            n += bool((b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])) and geo.seg_relation(a, b, c, d) > 0
    return n


@scenario(quick=2200, thorough=30000, need={"touch": 200, "cross": 300, "apart": 150, "vertices": 100, "duplicates": 50})
def planar_lattice(ctx):
    """intersects and intersections of lattice geometries, decided exactly"""
    rng = ctx.rng
    w, h = rng.choice([(4, 4), (6, 6), (9, 9), (15, 15), (30, 4)])
    ra, rb = rng.random() < 0.5, rng.random() < 0.5
    A = lattice(rng, rng.randrange(2 + ra, 8), ra, w, h)
    B = lattice(rng, rng.randrange(2 + rb, 8), rb, w, h)
    if rng.random() < 0.5:
        ox, oy = rng.randrange(-w, w), rng.randrange(-h, h)
        B = [(a + ox, b + oy) for a, b in B]
    k = rng.choice([1.0, 0.5, 4.0, 1024.0])
    o = rng.choice([0, 0, 1 << 16, 1 << 24])
    ctx.note(A=A, ra=ra, B=B, rb=rb, scale=k, offset=o)
    z = [rng.uniform(0, 9) for _ in range(40)] if rng.random() < 0.1 else None
    f = lambda P: [(k * (a + o), k * (b - o)) for a, b in P]
    g1, g2 = mk(f(A), ra, z=z), mk(f(B), rb, z=z)
    rel = geo.relation(A, ra, B, rb)
    ctx.eq(bool(g1.intersects(g2)), rel > 0, "intersects")
    ctx.eq(bool(g2.intersects(g1)), rel > 0, "intersects, other way round")
    ctx.event(["apart", "touch", "cross"][rel])
    if z is None:
        for dup in (False, True):
            I = g1.intersections(g2, keep_duplicates=dup)
            got = [tuple(v) for v in I.vertices()] if len(I) else []
            want = [(float(k * (a + o)), float(k * (b - o))) for a, b in exact_points(A, ra, B, rb)]
            tol = 1e-9 * k * (abs(o) + w + h)
            for p in got:
                ctx.check(any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for q in want), "intersections: a point that is not common to both", point=p, want=want)
            for q in want:
                ctx.check(any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for p in got), "intersections: a common point is missing", point=q, got=got)
            if not dup and o == 0:
                ctx.check(len(got) == len(set(got)), "intersections: duplicates")
                ctx.eq(sorted(tuple(v) for v in (lambda m: m.vertices() if len(m) else [])(g1.intersections(g2))), sorted(got), "intersections leaves out duplicates by default")
            if dup and o == 0:
                n = met_pairs(A, ra, B, rb)
                ctx.eq(len(got), n, "intersections with duplicates: one for every pair of segments that meet")
                if n > len(want): ctx.event("duplicates")
            ctx.event("vertices", len(got))
    ctx.distinct(A, ra, B, rb)


@scenario(quick=500, thorough=8000, need={"cross": 100, "apart": 50})
def planar_general(ctx):
    """many-vertex geometries at any scale, in general position"""
    rng = ctx.rng
    S = 10.0 ** rng.randrange(-6, 8)
    O = S * rng.choice([0, 0, 1, 1e3])
    def one():
        ring = rng.random() < 0.5
        st = rng.randrange(4)
        if st == 0:
            P = gen.star_polygon(rng, rng.uniform(0, S), rng.uniform(0, S), S * rng.choice([0.1, 0.4, 1]), n=rng.randrange(3, 40))
        elif st == 1:
            P = [(rng.uniform(0, S), rng.uniform(0, S)) for _ in range(rng.randrange(3, 12))]
        elif st == 2:
            p = (rng.uniform(0, S), rng.uniform(0, S)); P = [p]
            for _ in range(rng.randrange(2, 120)):
                p = (p[0] + rng.gauss(0, S / 20), p[1] + rng.gauss(0, S / 20)); P.append(p)
        else:
            n = rng.randrange(3, 30); y = rng.uniform(0, S)
            P = [(S * i / n, y + rng.uniform(0, S / 10)) for i in range(n)]
        return [(a + O, b - O) for a, b in P], ring
    A, ra = one()
    B, rb = one()
    ctx.note(A=A, ra=ra, B=B, rb=rb)
    c = geo.crossing(A, ra, B, rb, 1e-9 * (S + O))
    if c is None:
        raise Skip()
    g1, g2 = mk(A, ra), mk(B, rb)
    ctx.eq(bool(g1.intersects(g2)), c, "intersects")
    ctx.eq(bool(g2.intersects(g1)), c, "intersects, other way round")
    npr = sum(geo.seg_relation(a, b, p, q) == 2 for a, b in geo.segs(A, ra) for p, q in geo.segs(B, rb))
    I = g1.intersections(g2)
    ctx.eq(len(I), npr, "number of intersections")
    if npr:
        for p in I.vertices():
            ctx.check(min(geo.seg_point_d(p, *s) for s in geo.segs(A, ra)) < 1e-7 * (S + O) and
                      min(geo.seg_point_d(p, *s) for s in geo.segs(B, rb)) < 1e-7 * (S + O), "intersection point off a geometry")
    ctx.event("cross" if c else "apart")
    ctx.distinct(A[:3], B[:3])


def xyz(p):
    l, f = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(f) * math.cos(l), math.cos(f) * math.sin(l), math.sin(f)])


def arc_relation(a, b, c, d, eps):
    """2 cross with margin, 0 apart with margin, None hinges"""
    a, b, c, d = map(xyz, (a, b, c, d))
    n1, n2 = np.cross(a, b), np.cross(c, d)
    l1, l2 = np.linalg.norm(n1), np.linalg.norm(n2)
    if l1 < 1e-6 or l2 < 1e-6:
        return None, None
    n1, n2 = n1 / l1, n2 / l2
    p = np.cross(n1, n2)
    l = np.linalg.norm(p)
    if l < 1e-4:
        return None, None
    p /= l
    hinge = False
    for s in (1, -1):
        q = s * p
        m = min(np.dot(np.cross(n1, a), q), np.dot(np.cross(b, n1), q), np.dot(np.cross(n2, c), q), np.dot(np.cross(d, n2), q))
        if m > eps:
            return 2, q
        if m > -eps:
            hinge = True
    return (None, None) if hinge else (0, None)


@scenario(quick=700, thorough=10000, need={"cross": 100, "apart": 100, "points": 100, "southern": 20, "dateline": 30})
def sphere(ctx):
    """great-circle geometries anywhere, including over the dateline and the poles"""
    rng = ctx.rng
    st = rng.randrange(5)
    if st == 0:
        c, r = (rng.uniform(-180, 180), rng.uniform(-80, 80)), rng.choice([1, 10, 40])
    elif st == 1:
        c, r = (180 + rng.uniform(-5, 5), rng.uniform(-70, 70)), rng.choice([10, 30])
    elif st == 2:
        c, r = (rng.uniform(-180, 180), rng.choice([-88, -80, 80, 88])), 15
    elif st == 3:
        c, r = (rng.uniform(-180, 180), rng.uniform(-70, -20)), rng.choice([0.01, 3, 20])
    else:
        c, r = (rng.uniform(-180, 180), 0), 60
    norm = rng.random() < 0.6
    def pt():
        lo, la = c[0] + rng.uniform(-r, r), c[1] + rng.uniform(-r, r)
        if abs(la) > 89:
            la = math.copysign(178 - abs(la), la) if abs(la) > 90 else la
            lo += 180 if abs(la) > 90 else 0
        la = max(-89.5, min(89.5, la))
        if norm:
            lo = (lo + 180) % 360 - 180
        return (lo, la)
    ra, rb = rng.random() < 0.4, rng.random() < 0.4
    A = [pt() for _ in range(rng.randrange(2 + ra, 5))]
    B = [pt() for _ in range(rng.randrange(2 + rb, 5))]
    if rng.random() < 0.25:
        B = [(B[0][0], b) for a, b in B]      # along a meridian
    if rng.random() < 0.1:
        A = [(a, 0.0) for a, b in A]
    crs = rng.choice([SphericalEarth, LonLatWGS84, LonLatNAD83])
    ctx.note(A=A, ra=ra, B=B, rb=rb, crs=crs.name)
    rel = [arc_relation(a, b, p, q, 1e-9) for a, b in geo.segs(A, ra) for p, q in geo.segs(B, rb)]
    g1, g2 = mk(A, ra, crs), mk(B, rb, crs)
    if any(x == 2 for x, _ in rel):
        want = True
    elif all(x == 0 for x, _ in rel):
        want = False
    else:
        raise Skip()
    ctx.eq(bool(g1.intersects(g2)), want, "intersects on the sphere")
    ctx.eq(bool(g2.intersects(g1)), want, "intersects on the sphere, other way round")
    ctx.event("cross" if want else "apart")
    if st == 3: ctx.event("southern")
    if st == 1: ctx.event("dateline")
    I = g1.intersections(g2)
    P = [xyz(v) for v in I.vertices()] if len(I) else []
    if all(x is not None for x, _ in rel):
        for p in P:
            ctx.check(any(q is not None and np.linalg.norm(p - q) < 1e-9 for _, q in rel), "a spherical intersection that is not common to both", got=p.tolist())
    for _, q in rel:
        if q is not None:
            ctx.check(any(np.linalg.norm(p - q) < 1e-9 for p in P), "a spherical intersection is missing", point=q.tolist(), got=[tuple(v) for v in I.vertices()] if len(I) else [])
            ctx.event("points")
    for v in (I.vertices() if len(I) else []):
        ctx.check(abs(v[1]) <= 90 and -360 <= v[0] <= 360, "coordinates of an intersection", got=tuple(v))
    ctx.distinct(A, ra, B, rb)


@scenario(quick=400, thorough=5000, need={"contained": 60, "apart": 60, "partly": 60, "junction": 40, "touch": 20})
def same_circle(ctx):
    """arcs along one meridian or along the equator: apart, touching, overlapping, one within the other; and arcs that end on another"""
    rng = ctx.rng
    crs = rng.choice([SphericalEarth, LonLatWGS84, LonLatNAD83])
    meridian = rng.random() < 0.6
    l0 = rng.choice([0, 90, -90, 10, 137, -45, 180, -179.5, rng.uniform(-180, 180)]) if meridian else rng.choice([-150, -20, 0, 60, 170])
    at = (lambda t: (l0, float(t))) if meridian else (lambda t: (float((l0 + t + 180) % 360 - 180), 0.0))
    w = rng.choice([8, 30, 80])
    a = sorted(rng.sample(range(-w, w + 1), 2))
    if rng.random() < 0.25:
        # ends on the inside of the other arc
        k = rng.randint(a[0] + 1, a[1] - 1) if a[1] - a[0] > 1 else a[0]
        x, y = at(k)
        o = rng.uniform(3, 40) * rng.choice([-1, 1])
        A, B = [at(a[0]), at(a[1])], [(x, y), ((x + o + 180) % 360 - 180, y + rng.uniform(-5, 5)) if meridian else (x + rng.uniform(-5, 5), y + o)]
        if abs(A[0][0]) in (0, 90, 180) or not meridian:
            want, kind = True, "junction"
        else:
            raise Skip()
    else:
        b = sorted(rng.sample(range(-w, w + 1), 2))
        if rng.random() < 0.4 and b[1] - b[0] > 2:
            a = sorted((rng.randint(b[0], b[1]), rng.randint(b[0], b[1])))
            if a[0] == a[1]:
                raise Skip()
        if rng.random() < 0.2:
            a[rng.randrange(2)] = rng.choice(b)
            a.sort()
            if a[0] == a[1]:
                raise Skip()
        A, B = [at(t) for t in a], [at(t) for t in b]
        want = a[0] <= b[1] and b[0] <= a[1]
        kind = "apart" if not want else "touch" if a[0] == b[1] or b[0] == a[1] else "contained" if (a[0] >= b[0] and a[1] <= b[1]) or (a[0] <= b[0] and a[1] >= b[1]) else "partly"
    for P in (A, B):
        if rng.random() < 0.5: P.reverse()
    if rng.random() < 0.5: A, B = B, A
    if rng.random() < 0.3:
        x, y = A[0]
        A = [(x, y)] + A      # a vertex twice
    ctx.note(A=A, B=B, kind=kind, crs=crs.name)
    ctx.eq(bool(Line(A, crs=crs).intersects(Line(B, crs=crs))), want, "intersects along one great circle")
    ctx.event(kind)
    ctx.distinct(A, B)


@scenario(quick=24, thorough=400, need={"cross": 4, "apart": 4})
def mixed_crs(ctx):
    """the second geometry is given in another coordinate system"""
    rng = ctx.rng
    crs = rng.choice(PCRS)
    geographic = rng.random() < 0.3
    lon0 = rng.uniform(-143, -139)
    lat0 = rng.uniform(60, 70)
    pt = lambda: (lon0 + rng.uniform(-0.3, 0.3), lat0 + rng.uniform(-0.2, 0.2))
    ra, rb = rng.random() < 0.4, rng.random() < 0.4
    A = [pt() for _ in range(rng.randrange(2 + ra, 6))]
    B = [pt() for _ in range(rng.randrange(2 + rb, 6))]
    if rng.random() < 0.5:
        B = [(a + 0.5, b) for a, b in B]
    x, y = crs.project([p[0] for p in A], [p[1] for p in A])
    Ap = list(zip(x, y))
    x, y = crs.project([p[0] for p in B], [p[1] for p in B])
    Bp = list(zip(x, y))
    ctx.note(A=A, ra=ra, B=B, rb=rb, crs=crs.name)
    c = geo.crossing(Ap, ra, Bp, rb, 1.0)
    if c is None:
        raise Skip()
    g1 = mk(Ap, ra, crs)
    g2 = mk(B, rb, LonLatWGS84)
    ctx.eq(bool(g1.intersects(g2)), c, "intersects with a geometry in another coordinate system")
    I = g1.intersections(g2)
    n = sum(geo.seg_relation(a, b, p, q) == 2 for a, b in geo.segs(Ap, ra) for p, q in geo.segs(Bp, rb))
    ctx.eq(len(I), n, "number of intersections with a geometry in another coordinate system")
    for p in (I.vertices() if n else []):
        ctx.check(min(geo.seg_point_d(p, *s) for s in geo.segs(Ap, ra)) < 1e-2, "intersection is on the first geometry, in its coordinates")
    ctx.event("cross" if c else "apart")
    ctx.distinct(A, B)


@scenario(quick=120, thorough=2000, need={"other_system": 100, "other_meets": 25})
def other_systems(ctx):
    """the other geometry on another datum: as if it had been given in the geometry's own system"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(LonLatWGS84, A)
    own = [pa(other_datums.near(rng)) for _ in range(rng.randrange(3, 6))]
    other = [to_b(other_datums.near(rng, 0.1)) for _ in range(rng.randrange(3, 6))]
    if A.name == B.name: ctx.event("same_name")
    cls = rng.choice([Line, Polygon]), rng.choice([Line, Polygon])
    g = cls[0](own, crs=A)
    h = cls[1](other, crs=B)
    h2 = cls[1]([to_a(p) for p in other], crs=A)
    ctx.note(A=A.name, B=B.name, own=own, other=other)
    meets = g.intersects(h2)
    ctx.eq(bool(g.intersects(h)), bool(meets), "intersects with a geometry on another datum")
    x, y = g.intersections(h), g.intersections(h2)
    k = 1.0 if isinstance(A, ProjectedCRS) else 1e-5
    vx = sorted(tuple(map(float, p[:2])) for p in x.vertices()) if len(x) else []
    vy = sorted(tuple(map(float, p[:2])) for p in y.vertices()) if len(y) else []
    ctx.check(len(vx) == len(vy) and all(abs(a[0] - b[0]) < 0.01 * k and abs(a[1] - b[1]) < 0.01 * k for a, b in zip(vx, vy)),
              "intersections with a geometry on another datum", got=vx, want=vy)
    ctx.event("other_system")
    ctx.event("other_meets", int(bool(meets)))
    ctx.distinct(A.name, B.name, own)
