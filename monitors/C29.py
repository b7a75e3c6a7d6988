"""C29 distances, directions and walks: planar, geodetic, and the geodesic solvers."""
import math
import warnings
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from karta import Point, geodesy
from karta.crs import (Cartesian, SphericalEarth, LonLatWGS84, LonLatNAD27, LonLatNAD83, WebMercator, NSIDCNorth, NSIDCSouth,
                       UPSNorth, LambertEqualArea, GeographicalCRS, ProjectedCRS)
from lib import systems as other_datums

RULE = ("a case is a pair of points or a start, direction and distance - anywhere on the globe, on a meridian, the equator, a "
        "pole, across the dateline, close together or far apart; distinct by coordinates, ellipsoid and method")

# axes of the ellipsoids, independent of karta's table
ELL = {"sphere": (6370997.0, 6370997.0), "WGS84": (6378137.0, 6378137.0 * (1 - 1 / 298.257223563)),
       "clrk66": (6378206.4, 6356583.8), "GRS80": (6378137.0, 6378137.0 * (1 - 1 / 298.257222101)),
       "bessel": (6377397.155, 6377397.155 * (1 - 1 / 299.1528128)), "airy": (6377563.396, 6356256.909),
       "intl": (6378388.0, 6378388.0 * (1 - 1 / 297.0)), "krass": (6378245.0, 6378245.0 * (1 - 1 / 298.3))}
GEO = [(SphericalEarth, "sphere"), (LonLatWGS84, "WGS84"), (LonLatNAD27, "clrk66"), (LonLatNAD83, "GRS80"),
       (GeographicalCRS("+ellps=bessel", "b", datum=""), "bessel"), (GeographicalCRS("+ellps=airy", "a", datum=""), "airy"),
       (GeographicalCRS("+ellps=intl", "i", datum=""), "intl"), (GeographicalCRS("+ellps=krass", "k", datum=""), "krass")]
# bodies flatter than the Earth, for the solvers
FLAT = {"mars": (3396190.0, 3376200.0), "jupiter": (71492000.0, 66854000.0), "saturn": (60268000.0, 54364000.0),
        "flat": (6378137.0, 6378137.0 * (1 - 1 / 40.0)), "mercury": (2440530.0, 2438260.0)}
SOLVER = [k for k in ELL if k != "sphere"] + list(FLAT)
AXES = dict(ELL, **FLAT)
GEODS = {k: pyproj.Geod(a=a, b=b) for k, (a, b) in AXES.items()}


def wrap(d):
    return (d + 180.0) % 360.0 - 180.0


def pair(rng):
    st = rng.choice(["any", "any", "near", "same_lat", "meridian", "equator", "across_equator", "opposite", "pole", "dateline"])
    x1, y1 = rng.uniform(-180, 180), rng.uniform(-89, 89)
    x2, y2 = rng.uniform(-180, 180), rng.uniform(-89, 89)
    if st == "near":
        s = 10 ** rng.uniform(-6, 0)
        x2, y2 = wrap(x1 + rng.gauss(0, s)), max(-90, min(90, y1 + rng.gauss(0, s)))
    elif st == "same_lat": y2 = y1
    elif st == "meridian": x2 = x1
    elif st == "equator": y1 = y2 = 0.0
    elif st == "across_equator": y1, y2 = rng.uniform(-2, 0), rng.choice([0.0, rng.uniform(0, 2)])
    elif st == "opposite": x2 = wrap(x1 + 180.0)
    elif st == "pole": y2 = rng.choice([90.0, -90.0])
    elif st == "dateline":
        x1, x2 = rng.uniform(160, 180), rng.uniform(-180, -160)
        y2 = max(-90, min(90, y1 + rng.gauss(0, 10)))
    if rng.random() < 0.5:
        x1, y1, x2, y2 = x2, y2, x1, y1
    return st, x1, y1, x2, y2


def antipodes(rng, f):
    """nearly or exactly opposite positions"""
    x, y = rng.uniform(-180, 180), rng.choice([rng.uniform(-90, 90), rng.uniform(-90, 90), 0.0, rng.gauss(0, 1), rng.gauss(0, 10 ** rng.uniform(-10, -4))])
    k = rng.randrange(4)
    s = 10 ** rng.uniform(-9, 0.3)
    if k == 0: X, Y = x + 180 + rng.gauss(0, s), -y + rng.gauss(0, s)
    elif k == 1: X, Y = x + 180 + rng.gauss(0, 200 * f), rng.uniform(-90, 90)
    elif k == 2: X, Y = x + 180 + rng.gauss(0, 200 * f), -y + rng.gauss(0, 200 * f)
    else: X, Y = x + 180 + rng.choice([0, 1e-12, 1e-9, 1e-6, .6, .607, .61, 180 * f]), rng.choice([-y, -y + 1e-9])
    Y = max(-90.0, min(90.0, Y))
    return "antipodes", x, y, wrap(X), Y


def not_antipodal(G, x1, y1, x2, y2):
    X, Y = wrap(x1 + 180), -y1
    return G.inv(X, Y, x2, y2)[2] > 200e3


def inverse_ok(ctx, G, p, q, az, baz, d, what, tol=1e-3):
    """the geodesic described leads from p to q and is a shortest one"""
    d0 = G.inv(p[0], p[1], q[0], q[1])[2]
    t = tol + 1e-9 * d0
    ctx.close(d, d0, t, what + ": distance")
    if d0 < 1.0:
        return
    X, Y, _ = G.fwd(p[0], p[1], az, d0)
    ctx.close(G.inv(X, Y, q[0], q[1])[2], 0.0, t * 5, what + ": azimuth does not lead to the second point")
    X, Y, _ = G.fwd(q[0], q[1], baz, d0)
    ctx.close(G.inv(X, Y, p[0], p[1])[2], 0.0, t * 5, what + ": back azimuth does not lead to the first point")
    ctx.check(-180.0 <= az <= 180.0 and -180.0 <= baz <= 180.0, what + ": azimuths in [-180, 180]", az=az, baz=baz)


@scenario(quick=6000, thorough=60000, need={"pole": 100, "dateline": 100, "equator": 100, "meridian": 100, "opposite": 100, "any": 200,
                                               "antipodes": 500, "flat": 1000})
def solver_inverse(ctx):
    """geodesy.ellipsoidal_inverse"""
    rng = ctx.rng
    el = rng.choice(SOLVER)
    a, b = AXES[el]
    G = GEODS[el]
    st, x1, y1, x2, y2 = antipodes(rng, (a - b) / a) if rng.random() < 0.3 else pair(rng)
    ctx.note(ellipsoid=el, p=(x1, y1), q=(x2, y2))
    # within a kilometre of the equator the solver's iteration may stop early: with a warning
    hard = max(abs(y1), abs(y2)) < 1e-2 and not y1 == y2 == 0 and abs(wrap(x1 - x2)) > 100
    if el in FLAT: ctx.event("flat")
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        az, baz, d = geodesy.ellipsoidal_inverse(a, b, x1, y1, x2, y2)
    if said:
        ctx.check(max(abs(y1), abs(y2)) < 1e-2, "ellipsoidal_inverse does not converge", said=str(said[0].message))
        ctx.event("warned")
        if hard: return
    if st == "near" and max(abs(y1), abs(y2)) > 85:
        raise Skip()
    inverse_ok(ctx, G, (x1, y1), (x2, y2), az, baz, d, "ellipsoidal_inverse", tol=0.01)
    if hard: ctx.event("along_equator")
    ctx.event(st)
    ctx.distinct(el, x1, y1, x2, y2)


@scenario(quick=6000, thorough=60000, need={"pole": 100, "north_south": 100, "far": 100, "flat": 1000})
def solver_forward(ctx):
    """geodesy.ellipsoidal_forward"""
    rng = ctx.rng
    el = rng.choice(SOLVER)
    a, b = AXES[el]
    if el in FLAT: ctx.event("flat")
    G = GEODS[el]
    x, y = rng.uniform(-180, 180), rng.uniform(-90, 90)
    az, d = rng.uniform(-180, 180), 10 ** rng.uniform(0, 7)
    st = rng.choice(["any", "pole", "north_south", "east_west", "far", "equator", "zero"])
    if st == "pole": y = rng.choice([90.0, -90.0])
    if st == "north_south": az = rng.choice([0.0, 180.0, -180.0, 360.0])
    if st == "east_west": az = rng.choice([90.0, -90.0, 270.0])
    if st == "far": d = rng.uniform(1e7, 3e7)
    if st == "equator": y = 0.0
    if st == "zero": d = 0.0
    ctx.note(ellipsoid=el, p=(x, y), az=az, d=d)
    X, Y, B = geodesy.ellipsoidal_forward(a, b, x, y, az, d)
    X0, Y0, B0 = G.fwd(x, y, az, d)
    tol = 1e-3 + 0.01 * (a + d) * ((a - b) / a) ** 6        # the series are of sixth order in the flattening
    ctx.close(G.inv(X, Y, X0, Y0)[2], 0.0, tol, "ellipsoidal_forward: position")
    ctx.check(-180 <= X <= 180 and -90 <= Y <= 90, "ellipsoidal_forward: longitude and latitude range", got=(X, Y))
    if abs(Y0) < 89.99:
        ctx.close(abs(wrap(B - B0)), 0.0, 1e-6 + math.degrees(tol / a) * 1e4 * (el in FLAT), "ellipsoidal_forward: back azimuth")
    ctx.event(st)
    ctx.distinct(el, x, y, az, d)


@scenario(quick=6000, thorough=40000, need={"meridian": 100, "dateline": 100, "walks": 1500, "coincident": 50, "rank3": 200})
def geographical(ctx):
    """Point.distance, azimuth and walk in geographical coordinates"""
    rng = ctx.rng
    crs, el = rng.choice(GEO)
    G = GEODS[el]
    st, x1, y1, x2, y2 = pair(rng)
    if rng.random() < 0.05:
        x2, y2 = x1, y1
    z = rng.random() < 0.2
    p = Point((x1, y1) + ((rng.uniform(0, 3000),) if z else ()), crs=crs)
    q = Point((x2, y2) + ((rng.uniform(0, 3000),) if z else ()), crs=crs)
    ctx.note(crs=crs.name, p=p._vertex, q=q._vertex)
    d0 = G.inv(x1, y1, x2, y2)[2]
    want = math.sqrt(d0 ** 2 + (p.z - q.z) ** 2) if z else d0
    ctx.close(p.distance(q), want, 1e-5 + 1e-9 * want, "distance")
    ctx.close(q.distance(p), want, 1e-5 + 1e-9 * want, "distance is symmetric")
    ctx.close(p.distance(q, projected=False), want, 1e-5 + 1e-9 * want, "distance with projected=False")
    az = p.azimuth(q)
    if (x1, y1) == (x2, y2):
        ctx.check(az != az, "azimuth between coincident points is NaN", got=az)
        ctx.event("coincident")
    elif d0 > 1.0 and not_antipodal(G, x1, y1, x2, y2):
        X, Y, _ = G.fwd(x1, y1, az, d0)
        ctx.close(G.inv(X, Y, x2, y2)[2], 0.0, 1e-3, "azimuth does not lead to the other point")
        w = p.walk(d0, az)
        ctx.check(w.crs == crs, "walk keeps the coordinate system")
        ctx.close(G.inv(w.x, w.y, x2, y2)[2], 0.0, 1e-3, "walking the distance along the azimuth misses the other point")
        ctx.event("walks")
    D = 10 ** rng.uniform(0, 7)
    A = rng.choice([rng.uniform(-360, 360), rng.uniform(-720, 720), 0, 90, 180, 270])
    w = p.walk(D, A)
    X, Y, B = G.fwd(x1, y1, A, D)
    ctx.close(G.inv(w.x, w.y, X, Y)[2], 0.0, 1e-3, "walk position")
    X2, Y2, B2 = crs.forward(x1, y1, A, D)
    ctx.close(abs(wrap(B2 - B)), 0.0, 1e-7, "forward back azimuth")
    if d0 > 1 and not_antipodal(G, x1, y1, x2, y2):
        a1, a2, dd = crs.inverse(x1, y1, x2, y2)
        inverse_ok(ctx, G, (x1, y1), (x2, y2), a1, a2, dd, "crs.inverse", tol=1e-4)
    if z: ctx.event("rank3")
    ctx.event(st)
    ctx.distinct(el, x1, y1, x2, y2)


@scenario(quick=4000, thorough=40000, need={"coincident": 30, "quadrants": 800, "rank3": 100})
def planar(ctx):
    """Point.distance, azimuth, walk and Cartesian forward/inverse on a plane"""
    rng = ctx.rng
    crs = rng.choice([Cartesian, WebMercator, NSIDCNorth])
    S = 10.0 ** rng.randrange(-3, 7)
    x1, y1 = rng.uniform(-S, S), rng.uniform(-S, S)
    x2, y2 = rng.uniform(-S, S), rng.uniform(-S, S)
    k = rng.randrange(8)
    if k == 0: x2 = x1
    if k == 1: y2 = y1
    if k == 2: x2, y2 = x1, y1
    z = rng.random() < 0.2
    p = Point((x1, y1) + ((rng.uniform(-S, S),) if z else ()), crs=crs)
    q = Point((x2, y2) + ((rng.uniform(-S, S),) if z else ()), crs=crs)
    ctx.note(crs=crs.name, p=p._vertex, q=q._vertex)
    flat = math.hypot(x2 - x1, y2 - y1)
    want = math.sqrt(flat ** 2 + (p.z - q.z) ** 2) if z else flat
    ctx.close(p.distance(q), want, 1e-12 * S, "planar distance")
    ctx.close(q.distance(p), want, 1e-12 * S, "planar distance is symmetric")
    az = p.azimuth(q)
    if flat == 0:
        ctx.check(az != az, "azimuth between coincident points is NaN", got=az)
        ctx.event("coincident")
    else:
        ctx.check(-180 <= az <= 180, "azimuth range", got=az)
        ctx.close(math.sin(math.radians(az)) * flat, x2 - x1, 1e-9 * S, "azimuth, clockwise from north (x)")
        ctx.close(math.cos(math.radians(az)) * flat, y2 - y1, 1e-9 * S, "azimuth, clockwise from north (y)")
        w = p.walk(flat, az + rng.choice([0, 0, 360, -360, 720]))
        ctx.close(math.hypot(w.x - x2, w.y - y2), 0, 1e-9 * S, "walk reaches the other point")
        ctx.check(w.crs == crs, "walk keeps the coordinate system")
        ctx.event("quadrants")
    if crs is Cartesian:
        a, b, d = crs.inverse(x1, y1, x2, y2)
        ctx.close(d, flat, 1e-12 * S, "Cartesian.inverse distance")
        if flat:
            ctx.close(abs(wrap(a - az)), 0, 1e-9, "Cartesian.inverse azimuth")
            ctx.close(abs(wrap(b - az - 180)), 0, 1e-9, "Cartesian.inverse back azimuth")
            X, Y, B = crs.forward(x1, y1, a, d)
            ctx.close(math.hypot(X - x2, Y - y2), 0, 1e-9 * S, "Cartesian.forward inverts inverse")
            ctx.close(abs(wrap(B - b)), 0, 1e-9, "Cartesian.forward back azimuth")
        a, b, d = crs.inverse(x1, y1, x2, y2, radians=True)
        if flat:
            ctx.close(abs(wrap(math.degrees(a) - az)), 0, 1e-9, "Cartesian.inverse azimuth (radians)")
            ctx.close(abs(wrap(math.degrees(b) - az - 180)), 0, 1e-9, "Cartesian.inverse back azimuth (radians)")
        X, Y, B = crs.forward(x1, y1, a, d, radians=True)
        ctx.close(abs(wrap(math.degrees(B - b))), 0, 1e-9, "Cartesian.forward back azimuth (radians)")
        az_ = np.array([rng.uniform(-7, 7) for _ in range(3)])
        X_, Y_, B_ = crs.forward(x1, y1, az_, d, radians=True)
        for i in range(3):
            ctx.close(float(X_[i]), x1 + d * math.sin(az_[i]), 1e-9 * S, "Cartesian.forward of several azimuths (radians)")
            ctx.close(float(Y_[i]), y1 + d * math.cos(az_[i]), 1e-9 * S, "Cartesian.forward of several azimuths (radians)")
            ctx.close(abs(wrap(math.degrees(B_[i] - az_[i] - math.pi))), 0, 1e-9, "Cartesian.forward of several azimuths, back azimuth (radians)")
        ctx.close(math.hypot(X - x2, Y - y2), 0, 1e-9 * S, "Cartesian.forward inverts inverse (radians)")
        n = rng.randrange(1, 5)
        xs = [rng.uniform(-S, S) for _ in range(4 * n)]
        a, b, d = crs.inverse(xs[:n], xs[n:2 * n], xs[2 * n:3 * n], xs[3 * n:])
        for i in range(n):
            ctx.close(float(d[i]), math.hypot(xs[i] - xs[2 * n + i], xs[n + i] - xs[3 * n + i]), 1e-12 * S, "Cartesian.inverse of lists")
    if z: ctx.event("rank3")
    ctx.distinct(crs.name, x1, y1, x2, y2)


PROJ = [(NSIDCNorth, "WGS84", (-180, 180), (40, 89)), (NSIDCSouth, "WGS84", (-180, 180), (-89, -40)), (UPSNorth, "WGS84", (-180, 180), (60, 89)),
        (LambertEqualArea, "WGS84", (-60, 60), (-60, 60)),
        (ProjectedCRS("+proj=utm +zone=12 +ellps=clrk66", "u"), "clrk66", (-114, -108), (5, 80)),
        (ProjectedCRS("+proj=utm +zone=12 +datum=NAD83", "u"), "GRS80", (-114, -108), (5, 80)),
        (ProjectedCRS("+proj=tmerc +lat_0=49 +lon_0=-2 +k=0.9996 +a=6377563.396 +b=6356256.909", "t"), "airy", (-6, 2), (50, 58))]


@scenario(quick=400, thorough=6000, need={"pairs": 300})
def projected_geodetic(ctx):
    """projected=False measures on the ellipsoid; between different coordinate systems"""
    rng = ctx.rng
    crs, el, lo, la = rng.choice(PROJ)
    G = GEODS[el]
    l1, f1, l2, f2 = rng.uniform(*lo), rng.uniform(*la), rng.uniform(*lo), rng.uniform(*la)
    if rng.random() < 0.2: l2 = l1
    x1, y1 = crs.project(l1, f1)
    x2, y2 = crs.project(l2, f2)
    p, q = Point((x1, y1), crs=crs), Point((x2, y2), crs=crs)
    ctx.note(crs=crs.name, p=(l1, f1), q=(l2, f2))
    d0 = G.inv(l1, f1, l2, f2)[2]
    if d0 < 10 or not not_antipodal(G, l1, f1, l2, f2):
        raise Skip()
    t = 0.01 + 1e-7 * d0
    ctx.close(p.distance(q, projected=False), d0, t, "geodetic distance between projected points")
    ctx.close(p.distance(q), math.hypot(x2 - x1, y2 - y1), 1e-9 * (abs(x1) + abs(x2) + abs(y1) + abs(y2)), "projected distance")
    az = p.azimuth(q, projected=False)
    X, Y, _ = G.fwd(l1, f1, az, d0)
    ctx.close(G.inv(X, Y, l2, f2)[2], 0, 10 * t, "geodetic azimuth between projected points")
    w = p.walk(d0, az, projected=False)
    wl = crs.project(w.x, w.y, inverse=True)
    ctx.close(G.inv(wl[0], wl[1], l2, f2)[2], 0, 10 * t, "geodetic walk from a projected point")
    a1, a2, dd = crs.inverse(l1, f1, l2, f2)
    inverse_ok(ctx, G, (l1, f1), (l2, f2), a1, a2, dd, "ProjectedCRS.inverse", tol=1e-4)
    X, Y, B = crs.forward(l1, f1, a1, dd)
    ctx.close(G.inv(X, Y, l2, f2)[2], 0, 1e-3, "ProjectedCRS.forward")
    g = next((c for c, e in GEO if e == el), None)
    r = Point((l2, f2), crs=g)
    ctx.close(Point((l1, f1), crs=g).distance(q), d0, t, "distance from a geographical to a projected point")
    ctx.event("pairs")
    ctx.distinct(crs.name, l1, f1, l2, f2)


def hav(a, b, c, d):
    h = math.sin((b - d) / 2) ** 2 + math.cos(b) * math.cos(d) * math.sin((a - c) / 2) ** 2
    return 2 * math.atan2(math.sqrt(h), math.sqrt(max(0.0, 1 - h)))


@scenario(quick=4000, thorough=40000, need={"near": 100, "dateline": 100, "antipodal": 100, "vectors": 400})
def helpers(ctx):
    """the module's spherical and planar building blocks"""
    rng = ctx.rng
    st, x1, y1, x2, y2 = pair(rng)
    if rng.random() < 0.08:
        x2, y2, st = wrap(x1 + 180), -y1, "antipodal"
        if rng.random() < 0.5: y2 = max(-90, min(90, y2 + rng.gauss(0, 1e-6)))
    if rng.random() < 0.05:
        x1, x2, y2, st = 180.0, -180.0, y1, "dateline"
    ctx.note(p=(x1, y1), q=(x2, y2))
    r = math.radians
    a = (r(x1), r(y1), r(x2), r(y2))
    R = rng.choice([1.0, 6370997.0])
    want = hav(*a)
    tol = 1e-7 if want > math.pi - 1e-2 else 1e-14 + 1e-9 * want
    got = geodesy.sphere_distance(*a) if R == 1.0 else geodesy.sphere_distance(*a, radius=R)
    ctx.close(got, want * R, tol * R, "sphere_distance")
    # direction of the great circle, from the tangent plane at the first point
    e = math.cos(a[3]) * math.sin(a[2] - a[0])
    n = math.cos(a[1]) * math.sin(a[3]) - math.sin(a[1]) * math.cos(a[3]) * math.cos(a[2] - a[0])
    if max(abs(y1), abs(y2)) < 89.5 and 1e-7 < want < math.pi - 1e-6:
        ctx.close(abs(wrap(math.degrees(geodesy.sphere_azimuth(x1, y1, x2, y2) - math.atan2(e, n)))), 0.0, 1e-6, "sphere_azimuth")
    v, w = geodesy.sph2cart(x1, y1), geodesy.sph2cart(x2, y2)
    for c, k in zip(v, (math.cos(a[1]) * math.cos(a[0]), math.cos(a[1]) * math.sin(a[0]), math.sin(a[1]))):
        ctx.close(c, k, 1e-14, "sph2cart")
    lo, la = geodesy.cart2sph(*[c * R for c in v])
    ctx.close(la, y1, 1e-6, "cart2sph latitude")
    if abs(y1) < 89.9: ctx.close(abs(wrap(lo - x1)), 0.0, 1e-6, "cart2sph longitude")
    p = geodesy.eulerpole((x1, y1), (x2, y2))
    ctx.close(sum(c * d for c, d in zip(p, v)), 0.0, 1e-14, "eulerpole is perpendicular to the first point")
    ctx.close(sum(c * d for c, d in zip(p, w)), 0.0, 1e-14, "eulerpole is perpendicular to the second point")
    ctx.close(math.sqrt(sum(c * c for c in p)), math.sin(want), max(tol, 1e-12), "length of the eulerpole")
    t = rng.choice([rng.uniform(-1000, 1000), rng.randrange(-8, 9) * 90.0])
    ctx.check(0 <= geodesy.unroll_deg(t) < 360 and abs(wrap(geodesy.unroll_deg(t) - t)) < 1e-9, "unroll_deg")
    ctx.check(-180 <= geodesy.reduce_deg(t) < 180 and abs(wrap(geodesy.reduce_deg(t) - t)) < 1e-9, "reduce_deg")
    t = rng.uniform(-20, 20)
    u = geodesy.unroll_rad(t)
    ctx.check(0 <= u < 2 * math.pi and abs(math.sin(u) - math.sin(t)) < 1e-12 and abs(math.cos(u) - math.cos(t)) < 1e-12, "unroll_rad")
    u = geodesy.reduce_rad(t)
    ctx.check(-math.pi <= u < math.pi and abs(math.sin(u) - math.sin(t)) < 1e-12 and abs(math.cos(u) - math.cos(t)) < 1e-12, "reduce_rad")
    # x between the two others, on the shorter way round
    gap = wrap(x2 - x1)
    if 1e-6 < abs(gap) < 179.999:
        k = rng.uniform(1e-6, 1 - 1e-6)
        ctx.check(geodesy.isbetween_circular(wrap(x1 + k * gap), x1, x2), "isbetween_circular: between", k=k)
        ctx.check(not geodesy.isbetween_circular(wrap(x1 - k * math.copysign(360 - abs(gap), gap)), x1, x2), "isbetween_circular: on the other side", k=k)
        for q in (x1, x2): ctx.check(geodesy.isbetween_circular(q, q, rng.choice([x1 + x2 - q])), "isbetween_circular: at an end")
    S = 10.0 ** rng.randrange(-3, 7)
    m = rng.randrange(1, 5)
    A, B, C, D = [[rng.uniform(-S, S) for _ in range(m)] for _ in range(4)]
    for f, g in ((geodesy.plane_distance, lambda a, b, c, d: math.hypot(c - a, d - b)), (geodesy.plane_azimuth, lambda a, b, c, d: math.atan2(c - a, d - b))):
        got = f(A, B, C, D)
        ctx.eq(len(got), m, "length of a vector result")
        for i in range(m):
            ctx.close(float(got[i]), g(A[i], B[i], C[i], D[i]), 1e-9 * max(S, 1), "planar function of lists")
        ctx.close(f(A[0], B[0], C[0], D[0]), float(got[0]), 0.0, "scalars and lists agree")
    q = [rng.uniform(-1.5, 1.5) for _ in range(m)]
    got = geodesy.sphere_distance(q, q[::-1], [0.1] * m, [0.2] * m)
    for i in range(m):
        ctx.close(float(got[i]), hav(q[i], q[::-1][i], 0.1, 0.2), 1e-9, "sphere_distance of lists")
    ctx.event("vectors")
    ctx.event(st)
    ctx.distinct(x1, y1, x2, y2)


@scenario(quick=400, thorough=5000, need={"other_system": 300})
def other_systems(ctx):
    """distances and azimuths from a point to one on another datum"""
    rng = ctx.rng
    A, B, to_b, to_a = other_datums.pair(rng)
    pa = other_datums.mover(LonLatWGS84, A)
    a = pa(other_datums.near(rng))
    b = to_b(other_datums.near(rng))
    b2 = to_a(b)
    p, q, q2 = Point(a, crs=A), Point(b, crs=B), Point(b2, crs=A)
    ctx.note(A=A.name, B=B.name, a=a, b=b)
    if isinstance(A, GeographicalCRS):
        az, _, d = pyproj.Geod(a=A.ellipsoid.a, b=A.ellipsoid.b).inv(a[0], a[1], b2[0], b2[1])
    else:
        d = math.hypot(b2[0] - a[0], b2[1] - a[1])
        az = math.degrees(math.atan2(b2[0] - a[0], b2[1] - a[1]))
    if d < 1:
        raise Skip
    ctx.close(p.distance(q), d, 1e-3 + 1e-9 * d, "distance to a point on another datum")
    ctx.check(abs((p.azimuth(q) - az + 180) % 360 - 180) < 1e-3 * 60 / d + 1e-6, "azimuth to a point on another datum", got=p.azimuth(q), want=az)
    ctx.event("other_system")
    ctx.distinct(A.name, B.name, a, b)


@scenario(quick=600, thorough=10000, need={"inside": 300, "at an end": 50, "none": 50})
def root_finding(ctx):
    """geodesy.fzero_brent"""
    rng = ctx.rng
    r = rng.choice([rng.uniform(-10, 10), 0.0, 10 ** rng.uniform(-8, 6)])
    a, b = r - 10 ** rng.uniform(-6, 3), r + 10 ** rng.uniform(-6, 3)
    k, m = rng.choice([1, -1]) * 10 ** rng.uniform(-3, 3), rng.choice([0.0, 1.0, 10 ** rng.uniform(-3, 2)])
    f = rng.choice([lambda x: k * (x - r), lambda x: k * ((x - r) ** 3 + m * (x - r)), lambda x: k * math.atan(x - r),
                    lambda x: k * math.expm1(min(50.0, x - r))])
    tol = 10 ** rng.uniform(-12, -3)
    st = rng.choice(["inside"] * 6 + ["at an end", "none"])
    if rng.random() < 0.5: a, b = b, a
    ctx.note(a=a, b=b, root=r, tol=tol)
    if st == "none":
        ctx.raises(ValueError, lambda: geodesy.fzero_brent(max(a, b), max(a, b) + 1, f, tol), "no root between the brackets")
    elif st == "at an end":
        ctx.eq(geodesy.fzero_brent(*(rng.choice([(r, b), (a, r)]) + (f, tol))), r, "root at a bracket")
    else:
        got = geodesy.fzero_brent(a, b, f, tol)
        # the bracket is narrowed to the tolerance
        ctx.close(got, r, 2 * tol + 1e-9 * (abs(r) + 1e-6), "root")
    ctx.event(st)
    ctx.distinct(a, b, r, k)
