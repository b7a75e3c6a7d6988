"""C28 coordinate systems: projections invert, transforms agree with direct ones, definitions survive WKT, equality is by definition."""
import copy, math
import numpy as np
import pyproj
from lib.mon import scenario, Skip
from lib import gen
from lib.geoms import state, flat
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon
from karta import crs as K
from karta.errors import CRSError

RULE = ("a case is a coordinate system (predefined, or defined by a projection, ellipsoid, datum or axes) or a pair of them, with "
        "positions all over their domain, alone or as the vertices of a geometry; distinct by systems and positions")

# an independent table of the axes of named ellipsoids would repeat pyproj's: ask pyproj
LIST = pyproj.get_ellps_map()


def projected(rng):
    """(definition, lon range, lat range)"""
    d = rng.choice(["WGS84", "NAD83", "WGS84"])
    k = rng.randrange(8)
    if k == 0:
        z = rng.randrange(1, 61)
        c = -183 + 6 * z
        s = rng.random() < 0.4
        return "+proj=utm +zone=%d %s+datum=%s +units=m +no_defs" % (z, "+south " if s else "", "WGS84"), (c - 3, c + 3), (-80, -1) if s else (1, 83)
    if k == 1:
        return "+proj=lcc +lat_1=33 +lat_2=45 +lat_0=39 +lon_0=%g +datum=%s" % (rng.choice([-96, 10, 150]), d), None, (10, 80)
    if k == 2:
        return "+proj=tmerc +lat_0=49 +lon_0=-2 +k=0.9996012717 +x_0=400000 +y_0=-100000 +ellps=%s +units=m" % rng.choice(["airy", "bessel", "GRS80"]), (-6, 2), (45, 62)
    if k == 3:
        h = rng.choice([-1, 1])
        return "+proj=stere +lat_0=%d +lat_ts=%d +lon_0=%d +k=1 +x_0=0 +y_0=0 +datum=%s +units=m" % (90 * h, 70 * h, rng.choice([-45, 0, 100]), d), (-179, 179), (50, 89) if h > 0 else (-89, -50)
    if k == 4:
        return "+proj=laea +lat_0=%g +lon_0=%g +ellps=WGS84 +datum=WGS84" % (rng.choice([0, 45, -30]), rng.choice([0, 10, -120])), "near", None
    if k == 5:
        return "+proj=merc +a=6378137 +b=6378137 +units=m", (-179, 179), (-80, 80)
    if k == 6:
        return "+proj=aea +lat_1=55 +lat_2=65 +lat_0=50 +lon_0=-154 +a=6378206.4 +rf=%r +units=m" % rng.choice([294.978698213898, 298.25]), (-179, -130), (45, 75)
    return "+proj=sinu +lon_0=0 +R=%r +units=m" % rng.choice([6371007.181, 6370997.0]), (-170, 170), (-80, 80)


def domain(rng):
    """(crs, definition, list of lon/lat in its domain)"""
    if rng.random() < 0.5:
        crs, (x0, x1), (y0, y1) = rng.choice(gen.PROJECTED + [(K.UPSNorth, (-179, 179), (70, 89)), (K.UPSSouth, (-179, 179), (-89, -70))])
        return crs, crs.get_proj4(), lambda: (rng.uniform(x0, x1), rng.uniform(y0, y1))
    p, xr, yr = projected(rng)
    kv = dict(t.split("=") for t in p.split() if "=" in t)
    if xr is None:
        c = float(kv["+lon_0"])
        xr = (c - 30, c + 30)
    if xr == "near":
        c, l = float(kv["+lon_0"]), float(kv["+lat_0"])
        xr, yr = (c - 60, c + 60), (max(-85, l - 50), min(85, l + 50))
    f = lambda: ((rng.uniform(*xr) + 180) % 360 - 180, rng.uniform(*yr))
    return K.ProjectedCRS(p), p, f


@scenario(quick=600, thorough=8000, need={"systems": 500})
def projections(ctx):
    """project and its inverse, scalars and vectors, against pyproj"""
    rng = ctx.rng
    crs, p4, f = domain(rng)
    n = rng.choice([1, 5, 40])
    L = [f() for _ in range(n)]
    ctx.note(crs=p4, L=L[:10])
    ref = pyproj.Proj(p4)
    lon, lat = np.array([a for a, b in L]), np.array([b for a, b in L])
    x, y = crs.project(lon, lat)
    X, Y = ref(lon, lat)
    ctx.arr_eq(x, X, "easting", atol=1e-6)
    ctx.arr_eq(y, Y, "northing", atol=1e-6)
    u, v = crs.project(x, y, inverse=True)
    ctx.arr_eq((np.asarray(u) - lon + 180) % 360, np.full(n, 180.0), "longitude back", atol=1e-7)
    ctx.arr_eq(v, lat, "latitude back", atol=1e-7)
    a, b = crs.project(*L[0])
    ctx.close(a, x[0], 1e-6, "one position")
    ctx.close(b, y[0], 1e-6, "one position")
    g = rng.choice(gen.GEOGRAPHIC)
    u, v = g.project(lon, lat, radians=True) if rng.random() < 0.5 else g.project(lon.tolist(), lat.tolist(), radians=True)
    ctx.arr_eq(u, np.radians(lon), "geographical coordinates in radians", atol=1e-14)
    ctx.arr_eq(v, np.radians(lat), "geographical coordinates in radians", atol=1e-14)
    ctx.eq(g.project(*L[0]), L[0], "geographical coordinates are longitude and latitude")
    ctx.eq(g.project(*L[0], inverse=True), L[0], "geographical coordinates are longitude and latitude")
    ctx.event("systems")
    ctx.distinct(p4, L)


GEO = {"WGS84": K.LonLatWGS84, "NAD83": K.LonLatNAD83}
REFS = {}


def reference(a, b):
    k = (a, b)
    if k not in REFS:
        REFS[k] = pyproj.Transformer.from_proj(pyproj.Proj(a), pyproj.Proj(b), always_xy=True)
    return REFS[k]


def definition(crs):
    return crs.get_proj4()


@scenario(quick=70, thorough=1200, need={"transforms": 60})
def transforms(ctx):
    """transform from one system to another and back"""
    rng = ctx.rng
    A, pa, f = domain(rng)
    L = [f() for _ in range(rng.choice([1, 6, 60]))]
    lon, lat = np.array([a for a, b in L]), np.array([b for a, b in L])
    k = rng.randrange(3)
    if k == 0:
        A, x, y = K.LonLatWGS84, lon, lat
    else:
        x, y = A.project(lon, lat)
    B = rng.choice([K.LonLatWGS84, K.LonLatNAD83, K.WebMercator, K.LonLatNAD27, K.GallPetersEqualArea])
    ctx.note(A=definition(A), B=definition(B), L=L[:6])
    X, Y = A.transform(B, x, y)
    ok = np.isfinite(np.asarray(X)) & np.isfinite(np.asarray(Y))
    RX, RY = reference(definition(A), definition(B)).transform(x, y)
    t = 1e-2 if isinstance(B, K.ProjectedCRS) else 1e-6
    ctx.arr_eq(np.asarray(X), np.asarray(RX), "transformed coordinate x", atol=t)
    ctx.arr_eq(np.asarray(Y), np.asarray(RY), "transformed coordinate y", atol=t)
    if not ok.all():
        raise Skip()
    if "WGS84" in pa and B in (K.LonLatWGS84, K.GallPetersEqualArea):
        # same datum: the transform is the composition of the projections
        bx, by = B.project(lon, lat)
        ctx.arr_eq(np.asarray(X), np.asarray(bx), "composition of the projections (x)", atol=t)
        ctx.arr_eq(np.asarray(Y), np.asarray(by), "composition of the projections (y)", atol=t)
    if B is K.LonLatNAD27:
        # the shift between the datums is PROJ's choice of operation, not necessarily its own inverse
        ctx.event("transforms")
        ctx.distinct(pa, definition(B), L)
        return
    bx, by = B.transform(A, X, Y)
    ta = 1e-2 if isinstance(A, K.ProjectedCRS) else 1e-6
    RX, RY = reference(definition(B), definition(A)).transform(np.asarray(X), np.asarray(Y))
    ctx.arr_eq(np.asarray(bx), np.asarray(RX), "transformed back as PROJ does (x)", atol=ta)
    ctx.arr_eq(np.asarray(by), np.asarray(RY), "transformed back as PROJ does (y)", atol=ta)
    if ("NAD83" in pa) != (B is K.LonLatNAD83):
        # PROJ chooses the shift between these datums by the place: within a few metres
        ta = 5.0 if isinstance(A, K.ProjectedCRS) else 5e-5
    ctx.arr_eq(np.asarray(bx), np.asarray(x), "transformed back (x)", atol=ta)
    ctx.arr_eq(np.asarray(by), np.asarray(y), "transformed back (y)", atol=ta)
    if len(L) == 1 and isinstance(A, K.ProjectedCRS):
        z = A.transform(B, x, y, np.array([7.0]))
        ctx.eq(len(z), 3, "transform with heights gives three coordinates")
        ctx.close(float(z[0][0]), float(np.asarray(X)[0]), t, "transform with heights (x)")
        ctx.close(float(z[1][0]), float(np.asarray(Y)[0]), t, "transform with heights (y)")
        if "WGS84" in pa and B in (K.LonLatWGS84, K.GallPetersEqualArea):
            ctx.close(float(z[2][0]), 7.0, 1e-6, "transform with heights (z)")
    ctx.event("transforms")
    ctx.distinct(pa, definition(B), L)


@scenario(quick=60, thorough=900, need={"geometries": 50})
def geometries(ctx):
    """vertices of geometries in another system: order, rings, parts and third coordinates kept"""
    rng = ctx.rng
    A, pa, f = domain(rng)
    if "datum" in pa and "WGS84" not in pa or "ellps" in pa and "datum" not in pa or "+R" in pa or "+a" in pa:
        A, (x0, x1), (y0, y1) = rng.choice(gen.PROJECTED)
        f = lambda: (rng.uniform(x0, x1), rng.uniform(y0, y1))
    z = rng.random() < 0.5
    kind = rng.choice(["Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"])

    def pts(n):
        return [f() + ((rng.uniform(0, 99),) if z else ()) for _ in range(n)]

    src = K.LonLatWGS84
    if kind == "Point": st = pts(1)
    elif kind == "Multiline": st = [pts(rng.randrange(2, 5)) for _ in range(rng.randrange(1, 5))]
    elif kind == "Multipolygon": st = [[pts(rng.randrange(3, 5)) for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(1, 4))]
    else: st = pts(rng.randrange(3, 8))
    cls = dict(Point=Point, Line=Line, Polygon=Polygon, Multipoint=Multipoint, Multiline=Multiline, Multipolygon=Multipolygon)[kind]
    g = cls(st[0] if kind == "Point" else st, crs=src)
    ctx.note(kind=kind, st=st, to=A.name)

    def fwd(s):
        if isinstance(s, tuple):
            return tuple(A.project(s[0], s[1])) + s[2:]
        return [fwd(q) for q in s]

    want = fwd(st)
    before = state(g)

    def shape(s):
        return None if isinstance(s, tuple) else [shape(q) for q in s]

    def near(got, want, tol, what):
        ctx.eq(shape(got), shape(want), what + ": structure")
        for p, q in zip(flat(got), flat(want)):
            ctx.eq(len(p), len(q), what + ": dimensions")
            for a, b in zip(p, q):
                ctx.close(float(a), float(b), tol, what)

    def tup(v):
        if all(np.ndim(c) == 0 for c in v):
            return tuple(map(float, v))
        return [tup(q) for q in v]

    def plain(g):
        s = state(g)
        return s[0] if g._geotype == "Polygon" else s

    if kind == "Point":
        near([tuple(g.vertex(A))], want, 1e-3, "vertex")
        near([tuple(g.vertex(src))], st, 0, "vertex in its own system")
    else:
        V = g.vertices(A)
        near(tup(V) if kind in ("Line", "Polygon", "Multipoint") else
             ([tup(a) for a in V] if kind == "Multiline" else [[tup(a) for a in p] for p in V]), want, 1e-3, "vertices")
        near(plain(cls(V if kind not in ("Multiline", "Multipolygon") else [a.tolist() for a in V] if kind == "Multiline" else
                       [[a.tolist() for a in p] for p in V], crs=A)), want, 1e-3, "geometry rebuilt in the other system")
        if kind in ("Line", "Polygon", "Multipoint"):
            c = g.coords(A)
            near([tuple(q) for q in zip(*c)], [q[:2] for q in want], 1e-3, "coordinate lists")
            if z:
                near([tuple(q) for q in g.vertices(A, drop_z=True)], [q[:2] for q in want], 1e-3, "vertices without third coordinates")
        else:
            c = g.coords(A)
            near([tup(a.T) for a in c] if kind == "Multiline" else [[tup(a.T) for a in p] for p in c], want, 1e-3, "coordinate lists of parts")
        if kind in ("Line", "Polygon", "Multipoint"):
            # vertices as points, and geometries made of points of another system
            ps = [Point(tuple(q), crs=A) for q in want]
            if kind == "Multipoint":
                h = Multipoint(ps, crs=src)
                near(state(h), st, 1e-6, "Multipoint in a given system from points in another")
    ctx.eq(state(g), before, "the geometry changed")
    ctx.check(g.crs == src, "the coordinate system of the geometry changed")
    ctx.event("geometries")
    ctx.distinct(kind, st, A.name)


@scenario(quick=300, thorough=3000, need={"named": 100, "axes": 50, "datum": 50})
def ellipsoids(ctx):
    """the ellipsoid of a system is the one its definition names"""
    rng = ctx.rng
    k = rng.choice(["named", "named", "axes", "datum"])
    if k == "named":
        name = rng.choice(sorted(K.ELLIPSOID_DATA))
        if name not in LIST:
            raise Skip()
        d = "+ellps=%s" % name
        a, b = pyproj.Geod(ellps=name).a, pyproj.Geod(ellps=name).b
    elif k == "datum":
        name = rng.choice(sorted(K.DATUM_ELLIPSOIDS))
        d = "+datum=%s" % name
        e = pyproj.CRS.from_proj4("+proj=longlat " + d).ellipsoid
        a, b = e.semi_major_metre, e.semi_minor_metre
    else:
        a = rng.choice([6378137.0, 6370997.0, rng.uniform(3e6, 7e7)])
        q = rng.randrange(4)
        f = rng.choice([0.0, 1 / 298.257223563, rng.uniform(0, 0.01)])
        b = a * (1 - f)
        if q == 0 or f == 0: d = "+a=%r +b=%r" % (a, b)
        elif q == 1: d = "+a=%r +rf=%r" % (a, 1 / f)
        elif q == 2: d = "+a=%r +f=%r" % (a, f)
        else:
            d, b = "+R=%r" % a, a
    ctx.note(definition=d)
    full = rng.choice(["+proj=laea +lat_0=5 +lon_0=10 %s", "+proj=stere +lat_0=90 %s +units=m", "%s +proj=merc"]) % d
    c = K.ProjectedCRS(full)
    title = rng.choice(["x", "", "Wäldchen 12 %"])
    ctx.eq(K.ProjectedCRS(full, title).name, title, "name given to a system")
    ctx.eq(K.ProjectedCRS(full, name=title).name, title, "name given to a system")
    e = c.ellipsoid
    ctx.close(e.a, a, 1e-6, "semi-major axis")
    ctx.close(e.b, b, 2e-3 if k != "axes" else 1e-6, "semi-minor axis")
    ctx.close(e.f, (a - b) / a, 1e-9, "flattening")
    ctx.close(c._geod.a if hasattr(c, "_geod") else a, a, 1e-6, "ellipsoid of its geodesics")
    # distances along the equator and a meridian, by the system's own geodesics
    _, _, dist = c.inverse(0.0, 0.0, 1.0, 0.0)
    ctx.close(dist, a * math.pi / 180, 1e-3, "one degree along the equator")
    if k == "named":
        g = K.GeographicalCRS(d, "x", datum="")
        ctx.close(g.ellipsoid.a, a, 1e-6, "semi-major axis of a geographical system")
        ctx.close(g.ellipsoid.b, b, 2e-3, "semi-minor axis of a geographical system")
        ctx.close(g.inverse(0.0, 0.0, 1.0, 0.0)[2], a * math.pi / 180, 1e-3, "one degree along the equator, geographical")
    if rng.random() < 0.1:
        ctx.raises(CRSError, lambda: K.ProjectedCRS("+proj=laea +lat_0=0 +lon_0=0 +units=m"), "no ellipsoid")
    ctx.event(k)
    ctx.distinct(full)


@scenario(quick=250, thorough=3000, need={"wkt": 200})
def definitions(ctx):
    """a system written as WKT and read back is the same system"""
    rng = ctx.rng
    if rng.random() < 0.3:
        A = rng.choice([K.LonLatWGS84, K.LonLatNAD83, K.LonLatNAD27])
        if rng.random() < 0.7:
            a, d = rng.choice([("+ellps=" + rng.choice([e for e in sorted(LIST) if e in K.ELLIPSOID_DATA]), ""), ("+a=%.1f +f=%.9f" % (rng.uniform(1e6, 7e6), rng.choice([0, rng.uniform(0.001, 0.01)])), ""),
                               ("+a=6378206.4 +b=6356583.8", "+datum=NAD27"), ("+a=6378137 +rf=298.257222101", "+datum=NAD83"), ("+ellps=clrk66", "+datum=NAD27"),
                               ("+a=6378137 +rf=298.257223563", "+datum=WGS84"), ("+ellps=bessel", "+towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7")])
            A = K.GeographicalCRS(a, "user's", datum=d)
        pa = A.get_proj4()
    else:
        A, pa, f = domain(rng)
    w = A.get_wkt()
    ctx.check(A.wkt == w and A.proj4 == A.get_proj4(), "wkt and proj4 properties")
    B = K.crs_from_wkt(w)
    ctx.note(crs=pa, wkt=w)
    ctx.check(isinstance(B, K.ProjectedCRS) == isinstance(A, K.ProjectedCRS), "kind of system")
    ctx.close(B.ellipsoid.a, A.ellipsoid.a, 1e-6, "semi-major axis")
    ctx.close(B.ellipsoid.b, A.ellipsoid.b, 1e-3, "semi-minor axis")
    if isinstance(A, K.ProjectedCRS):
        for _ in range(5):
            q = f()
            a, b = A.project(*q), B.project(*q)
            ctx.close(a[0], b[0], 1e-2, "easting of the system read back")
            ctx.close(a[1], b[1], 1e-2, "northing of the system read back")
    else:
        f = lambda c: [t for t in c.get_proj4().split() if t.startswith(("+datum", "+towgs84"))]
        ctx.eq(f(B), f(A), "datum of the system read back")
    ctx.event("wkt")
    ctx.distinct(pa)


def snyder_t(phi, e):
    return math.tan(math.pi / 4 - phi / 2) / ((1 - e * math.sin(phi)) / (1 + e * math.sin(phi))) ** (e / 2)


def polar(lon, lat, south, lon0, k0=None, ts=None, fe=0.0):
    """polar stereographic, ellipsoidal (Snyder 1987, eqs 21-33 to 21-40), on WGS84"""
    a, f = 6378137.0, 1 / 298.257223563
    e = math.sqrt(2 * f - f * f)
    sg = -1 if south else 1
    phi, lam = math.radians(sg * lat), math.radians(sg * (lon - lon0))
    if ts is None:
        r = 2 * a * k0 * snyder_t(phi, e) / math.sqrt((1 + e) ** (1 + e) * (1 - e) ** (1 - e))
    else:
        c = math.radians(ts)
        r = a * math.cos(c) / math.sqrt(1 - (e * math.sin(c)) ** 2) * snyder_t(phi, e) / snyder_t(c, e)
    return fe + sg * r * math.sin(lam), fe - sg * r * math.cos(lam)


def authalic(phi, e):
    s = math.sin(phi)
    return (1 - e * e) * (s / (1 - (e * s) ** 2) - math.log((1 - e * s) / (1 + e * s)) / (2 * e))


def published(name, lon, lat):
    """position in a predefined system, by its published parameters"""
    a, f = 6378137.0, 1 / 298.257223563
    e = math.sqrt(2 * f - f * f)
    l, p = math.radians(lon), math.radians(lat)
    if name == "UPSNorth": return polar(lon, lat, False, 0, k0=0.994, fe=2e6)
    if name == "UPSSouth": return polar(lon, lat, True, 0, k0=0.994, fe=2e6)
    if name == "NSIDCNorth": return polar(lon, lat, False, -45, ts=70)
    if name == "NSIDCSouth": return polar(lon, lat, True, 0, ts=70)
    if name == "WebMercator": return a * l, a * math.log(math.tan(math.pi / 4 + p / 2))
    q = authalic(p, e)
    if name == "GallPetersEqualArea":
        c = math.radians(45)
        k = math.cos(c) / math.sqrt(1 - (e * math.sin(c)) ** 2)
        return a * k * l, a * q / (2 * k)
    if name == "LambertEqualArea":
        qp = authalic(math.pi / 2, e)
        beta, rq = math.asin(max(-1, min(1, q / qp))), a * math.sqrt(qp / 2)
        d = a / rq         # cos(phi1) / (sqrt(1 - e2 sin2 phi1) * Rq/a * cos(beta1)) at phi1 = 0
        b = rq * math.sqrt(2 / (1 + math.cos(beta) * math.cos(l)))
        return b * d * math.cos(beta) * math.sin(l), b / d * math.sin(beta)


PUBLISHED = {"UPSNorth": (-180, 180, 60, 89.9), "UPSSouth": (-180, 180, -89.9, -60), "NSIDCNorth": (-180, 180, 30, 89.9),
             "NSIDCSouth": (-180, 180, -89.9, -30), "WebMercator": (-180, 180, -85, 85), "GallPetersEqualArea": (-180, 180, -89, 89),
             "LambertEqualArea": (-120, 120, -80, 80)}
AXES = {"LonLatWGS84": (6378137.0, 298.257223563, "WGS84"), "LonLatNAD83": (6378137.0, 298.257222101, "NAD83"),
        "LonLatNAD27": (6378206.4, 294.9786982139, "NAD27"), "SphericalEarth": (6370997.0, 0, "WGS84")}


@scenario(quick=300, thorough=3000, need={"positions": 1000, "axes": 40})
def predefined(ctx):
    """the predefined systems are the published ones, by formulas and parameters of our own"""
    rng = ctx.rng
    if ctx.index % 7 == 0:
        name = rng.choice(sorted(AXES))
        c = getattr(K, name)
        a, rf, datum = AXES[name]
        ctx.note(name=name)
        ctx.close(c.ellipsoid.a, a, 1e-6, "semi-major axis of %s" % name)
        ctx.close(c.ellipsoid.b, a * (1 - (1 / rf if rf else 0)), 1e-3, "semi-minor axis of %s" % name)
        lat = rng.uniform(-80, 80)
        ctx.close(c.inverse(10.0, 0.0, 11.0, 0.0)[2], a * math.pi / 180, 1e-3, "one degree along the equator of %s" % name)
        if datum != "WGS84":
            ctx.check("+datum=" + datum in c.get_proj4(), "datum of %s" % name)
        ctx.check(isinstance(c, K.GeographicalCRS) and not isinstance(c, K.ProjectedCRS), "kind of %s" % name)
        ctx.event("axes")
        ctx.distinct(name, lat)
        return
    name = rng.choice(sorted(PUBLISHED))
    c = getattr(K, name)
    x0, x1, y0, y1 = PUBLISHED[name]
    L = [(rng.uniform(x0, x1), rng.uniform(y0, y1)) for _ in range(8)]
    ctx.note(name=name, L=L)
    for lon, lat in L:
        x, y = c.project(lon, lat)
        u, v = published(name, lon, lat)
        ctx.close(x, u, 1e-3, "easting in %s" % name)
        ctx.close(y, v, 1e-3, "northing in %s" % name)
    ctx.event("positions", len(L))
    ctx.distinct(name, L)


def varied(rng, p):
    """the definition with one of its parameters changed"""
    t = p.split()
    k = [i for i, w in enumerate(t) if "=" in w and w.split("=")[0] in
         ("+lat_1", "+lat_2", "+lat_0", "+lon_0", "+x_0", "+y_0", "+k", "+zone", "+lat_ts", "+a", "+R", "+rf")]
    i = rng.choice(k) if k else None
    if i is None:
        return p + " +x_0=1000"
    a, b = t[i].split("=")
    d = rng.choice([1, 0.5]) if a != "+zone" else (1 if float(b) < 60 else -1)
    if a == "+k":
        if "stere" in p: return p.replace("+x_0=0", "+x_0=1000")
        d = 1e-4
    if a in ("+lat_0", "+lat_ts") and abs(float(b)) > 60: d = -d if float(b) > 0 else d
    if a == "+lat_0" and "stere" in p: return p + " +y_0=1000" if "+y_0" not in p else p.replace("+y_0=0", "+y_0=1000")
    t[i] = "%s=%r" % (a, (int(float(b)) + d) if a == "+zone" else float(b) + d)
    return " ".join(t)


@scenario(quick=300, thorough=4000, need={"pairs": 250})
def equality(ctx):
    """systems are equal, with equal hashes, when their definitions are, and only then"""
    rng = ctx.rng
    every = [K.LonLatWGS84, K.LonLatNAD83, K.LonLatNAD27, K.SphericalEarth, K.WebMercator, K.NSIDCNorth, K.NSIDCSouth, K.UPSNorth,
             K.UPSSouth, K.LambertEqualArea, K.GallPetersEqualArea, K.Cartesian]
    i, j = rng.randrange(len(every)), rng.randrange(len(every))
    a, b = every[i], every[j]
    ctx.note(a=a.name, b=b.name)
    ctx.eq(a == b, i == j, "equality of predefined systems")
    ctx.eq(a != b, i != j, "inequality of predefined systems")
    p, _, _ = projected(rng)
    q, _, _ = projected(rng)
    c, d, e = K.ProjectedCRS(p), K.ProjectedCRS(p, name="another name"), K.ProjectedCRS(q)
    ctx.check(c == d and d == c and not (c != d), "two systems of the same definition differ", p=p)
    ctx.eq(hash(c), hash(d), "hash of equal systems")
    if p != q:
        ctx.check(c != e and e != c and not (c == e), "systems of different definitions are equal", p=p, q=q)
    v = varied(rng, p)
    h = K.ProjectedCRS(v)
    ctx.check(c != h and h != c and not (c == h), "systems that differ in one parameter are equal", p=p, q=v)
    # geographical systems: the ellipsoid and the datum both count
    gs = [K.GeographicalCRS(e_, "g", datum=d_) for e_ in ("+ellps=WGS84", "+ellps=GRS80", "+ellps=clrk66")
          for d_ in ("+datum=WGS84", "+datum=NAD83", "+datum=NAD27", "", "+towgs84=1,2,3")]
    m, n = rng.randrange(len(gs)), rng.randrange(len(gs))
    ctx.note(m=gs[m].get_proj4(), n=gs[n].get_proj4())
    ctx.eq(gs[m] == gs[n], m == n, "equality of geographical systems")
    ctx.eq(gs[m] != gs[n], m != n, "inequality of geographical systems")
    ctx.eq(a == c, c == a, "equality is not symmetric")
    if a == c:
        ctx.eq(hash(a), hash(c), "hash of equal systems")
    for s in (a, c):
        for t in (copy.copy(s), copy.deepcopy(s)):
            ctx.check(t == s and s == t and hash(t) == hash(s), "a copied system differs")
    g = K.GeographicalCRS("+ellps=WGS84", "mine", datum="+datum=WGS84")
    ctx.check(g == K.LonLatWGS84 and hash(g) == hash(K.LonLatWGS84), "geographical system of the same definition")
    ctx.check(a != 3 and not (c == "x"), "a system equals something else")
    ctx.raises(NotImplementedError, lambda: K.Cartesian.transform(K.WebMercator, 0, 0), "Cartesian coordinates are transformed")
    ctx.event("pairs")
    ctx.distinct(i, j, p, q)
