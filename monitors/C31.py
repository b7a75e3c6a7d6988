"""C31 areas of geographical polygons on the sphere and the ellipsoid."""
import math
import pyproj
from lib.mon import scenario, Skip
from lib import geo
from karta import Polygon, geodesy
from karta.crs import SphericalEarth, LonLatWGS84, LonLatNAD27, LonLatNAD83, GeographicalCRS

RULE = ("a case is a geographical polygon from 100 m to continental size - in either hemisphere, across the equator, the "
        "dateline or around a pole, either winding, with holes, with edges along meridians and the equator; compared with "
        "an independent geodesic area; distinct by vertices and ellipsoid")

CRSS = [(SphericalEarth, pyproj.Geod(a=6370997.0, b=6370997.0)), (LonLatWGS84, pyproj.Geod(ellps="WGS84")),
        (LonLatNAD27, pyproj.Geod(ellps="clrk66")), (LonLatNAD83, pyproj.Geod(ellps="GRS80")),
        (GeographicalCRS("+ellps=bessel", "b", datum=""), pyproj.Geod(ellps="bessel")),
        (GeographicalCRS("+a=3396190 +b=3376200", "Mars", datum=""), pyproj.Geod(a=3396190, b=3376200)),
        (GeographicalCRS("+a=6378137 +b=6218683.575", "flat", datum=""), pyproj.Geod(a=6378137, b=6218683.575))]


def ref(G, P):
    return abs(G.polygon_area_perimeter([p[0] for p in P], [p[1] for p in P])[0])


def w(x):
    return (x + 180.0) % 360.0 - 180.0


def ring(rng, c, r, n):
    """star about c; every angle gap below pi so that it is simple"""
    for _ in range(50):
        th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if max((th[(i + 1) % n] - th[i]) % (2 * math.pi) for i in range(n)) < 2.8:
            break
    else:
        raise Skip()
    P = []
    for t in th:
        k = r * rng.uniform(0.3, 1)
        P.append((w(c[0] + k * math.cos(t)), c[1] + k * math.sin(t)))
    return P


@scenario(quick=2500, thorough=40000, need={"north": 100, "south": 100, "equator": 100, "dateline": 100, "large": 50, "box": 100})
def bodies(ctx):
    """polygons away from the poles"""
    rng = ctx.rng
    crs, G = rng.choice(CRSS)
    st = rng.choice(["north", "south", "equator", "dateline", "dateline_equator", "large", "box"])
    c = {"north": (rng.uniform(-150, 150), rng.uniform(15, 70)), "south": (rng.uniform(-150, 150), rng.uniform(-70, -15)),
         "equator": (rng.uniform(-150, 150), rng.uniform(-.01, .01)), "dateline": (180.0, rng.uniform(-70, 70)),
         "dateline_equator": (180.0, 0.0), "large": (rng.uniform(-100, 100), rng.uniform(-25, 25)), "box": (0, 0)}[st]
    r = rng.choice([2e-3, 0.01, 0.1, 1, 10])
    if st == "large": r = 60
    if st == "box":
        x, y = rng.choice([0, 20, -10, 175, -180]), rng.choice([0, 30, -30, -5])
        P = [(w(x), y), (w(x + r), y), (w(x + r), y + r), (w(x), y + r)]
    else:
        P = ring(rng, c, r, rng.randrange(3, 9))
    if rng.random() < 0.5: P.reverse()
    k = rng.randrange(len(P))
    P = P[k:] + P[:k]
    V = [p + (7.0,) for p in P] if rng.random() < 0.2 else P
    ctx.note(P=V, crs=crs.name, style=st)
    want = ref(G, P)
    p = Polygon(V, crs=crs)
    # the kernel keeps about 12 digits of areas of the size of a body's surface
    t = 20.0 + 1e-4 * want if r < 0.05 else 300.0 + {0.1: 1e-5, 1: 1e-7}.get(r, 1e-9) * want
    ctx.close(p.area, want, t, "area of a geographical polygon")
    ctx.close(Polygon(P[::-1], crs=crs).area, want, t, "area with the opposite winding")
    if r >= 0.1 and rng.random() < 0.3 and st not in ("box",):
        # a hole is a scaled copy
        H = [(w(c[0] + 0.2 * w(a - c[0])), c[1] + 0.2 * (b - c[1])) for a, b in P]
        hw = ref(G, H)
        ctx.close(Polygon(P, subs=[Polygon(H, crs=crs)], crs=crs).area, want - hw, 2 * t, "area with a hole")
        ctx.event("holes")
    ctx.event(st)
    ctx.distinct(crs.name, P)


@scenario(quick=700, thorough=10000, need={"polar": 300, "touching": 50})
def polar(ctx):
    """polygons around a pole, or with a vertex at one"""
    rng = ctx.rng
    crs, G = rng.choice(CRSS)
    s = rng.choice([1, -1])
    r = rng.choice([0.5, 5, 30, 60])
    n = rng.randrange(3, 9)
    P = [(w(l), s * (90 - r * rng.uniform(0.3, 1))) for l in sorted(rng.uniform(-180, 180) for _ in range(n))]
    L = [p[0] for p in P]
    if max((L[(i + 1) % n] - L[i]) % 360 for i in range(n)) > 150:
        raise Skip()
    if rng.random() < 0.25:
        # a wedge with its tip at the pole
        P = [(0.0, 90.0 * s), (10.0, s * (90 - r)), (10.0 + rng.uniform(5, 90), s * (90 - r * 0.9))]
        ctx.event("touching")
    else:
        ctx.event("polar")
    if rng.random() < 0.5: P.reverse()
    ctx.note(P=P, crs=crs.name)
    want = ref(G, P)
    ctx.close(Polygon(P, crs=crs).area, want, 1000.0 + 1e-9 * want, "area of a polygon at a pole")
    ctx.distinct(crs.name, P)


@scenario(quick=600, thorough=10000, need={"north": 100, "south": 100, "sphere": 50})
def under_segments(ctx):
    """geodesy.ellipsoidal_area and spherical_area: between a geodesic and the equator"""
    rng = ctx.rng
    a, b = rng.choice([(6378137.0, 6356752.314245179), (6378206.4, 6356583.8), (3396190.0, 3376200.0), (6378137.0, 6218683.575), (6370997.0, 6370997.0)])
    s = rng.choice([1, -1])
    x1 = rng.uniform(-180, 180)
    d = rng.choice([1, -1]) * rng.choice([rng.uniform(0.1, 2), rng.uniform(1, 100), rng.uniform(100, 150)])
    y1, y2 = s * rng.uniform(1, 80), s * rng.uniform(1, 80)
    x2 = w(x1 + d)
    ctx.note(a=a, b=b, p=(x1, y1), q=(x2, y2))
    G = pyproj.Geod(a=a, b=b)
    m = w(x1 + d / 2)            # the equator in two pieces, each shorter than half way round
    want = abs(G.polygon_area_perimeter([x1, x2, x2, m, x1], [y1, y2, 0.0, 0.0, 0.0])[0])
    f = (lambda *p: geodesy.spherical_area(a, *p)) if a == b else (lambda *p: geodesy.ellipsoidal_area(a, b, *p))
    want *= s if d > 0 else -s
    t = 300.0 + 1e-9 * abs(want)
    ctx.close(f(x1, y1, x2, y2), want, t, "area under a geodesic, positive north of the equator and eastward")
    ctx.close(f(x2, y2, x1, y1), -want, t, "area under a geodesic, the other way")
    ctx.close(f(x1, -y1, x2, -y2), -want, t, "area under a geodesic on the other hemisphere")
    H = G.polygon_area_perimeter([0.0, 90.0, 180.0, -90.0], [0.0] * 4)[0]
    ctx.close(geodesy.hemisphere_area(a, b), abs(H), 1e-9 * abs(H), "area of a hemisphere")
    ctx.event("north" if s > 0 else "south")
    if a == b: ctx.event("sphere")
    ctx.distinct(a, b, x1, y1, x2, y2)
