"""C30 web map tiles: the tile of a point contains it, tiles partition the map, corners follow Web Mercator."""
import math
from lib.mon import scenario, Skip
from karta import Point
from karta.tile import Tile, tile_from_point
from karta.crs import LonLatWGS84, WebMercator, NSIDCNorth, SphericalEarth
from lib import systems as other_datums

RULE = ("a case is a zoom level and a point - anywhere, on the edges and corners of tiles, at the limits of the map, in "
        "geographical or projected coordinates - or a tile with its neighbours and children; distinct by zoom and position")
LAT = math.degrees(math.atan(math.sinh(math.pi)))


def rnd_zoom(rng):
    return rng.choice([0, 0, 1, 2, 3, 5, 8, 12, 18, 22, 30])


def tile_edges(z, x, y):
    """reference: (west, south, east, north) by the Web Mercator definition"""
    n = 2 ** z
    g = lambda v: math.degrees(2 * math.atan(math.exp(math.pi * (1 - 2 * v / n))) - math.pi / 2)
    return (x / n * 360.0 - 180.0, g(y + 1), (x + 1) / n * 360.0 - 180.0, g(y))


@scenario(quick=20000, thorough=400000, need={"inside": 10000, "edge": 2000, "projected": 500, "meridian180": 300, "beyond180": 300})
def points(ctx):
    """the tile found for a point contains it"""
    rng = ctx.rng
    z = rnd_zoom(rng)
    n = 2 ** z
    k = rng.random()
    lon, lat = rng.uniform(-180, 180), rng.uniform(-LAT + 1e-6, LAT - 1e-6)
    kind = "inside"
    if k < 0.25:
        # on a corner or an edge of a tile
        e = tile_edges(z, rng.randrange(n), rng.randrange(n))
        if rng.random() < 0.7: lon = e[0]
        if rng.random() < 0.7: lat = e[3] if abs(e[3]) < 85 else 0.0
        kind = "edge"
    elif k < 0.3:
        lon = rng.choice([-180.0, 180.0, math.nextafter(180.0, 0) if hasattr(math, "nextafter") else 179.99999999999997])
        kind = "meridian180"
    elif k < 0.4:
        lat = rng.choice([1, -1]) * rng.uniform(84.9, LAT - 1e-9)
    elif k < 0.45:
        lat = rng.choice([0.0, 1e-12, -1e-12])
    elif k < 0.5:
        lon = rng.choice([lon + 360, lon - 360, rng.uniform(180, 360)])
        kind = "beyond180"
    p = Point((lon, lat), crs=rng.choice([LonLatWGS84, SphericalEarth]))
    if rng.random() < 0.1 and kind == "inside":
        crs = rng.choice([WebMercator, NSIDCNorth])
        if crs is NSIDCNorth and lat < 10:
            raise Skip()
        p = Point(crs.project(lon, lat), crs=crs)
        ctx.event("projected")
    if rng.random() < 0.1:
        p = Point(tuple(p.vertex()) + (12.0,), crs=p.crs)
    ctx.note(z=z, lon=lon, lat=lat, crs=p.crs.name)
    t = tile_from_point(p, z)
    ctx.eq(t.z, z, "zoom of the tile")
    ctx.check(isinstance(t.x, int) and isinstance(t.y, int) and 0 <= t.x < n and 0 <= t.y < n, "no such tile", got=(t.x, t.y), n=n)
    tol = 1e-9
    w, s, e, nn = t.bbox
    ctx.check(s - tol <= lat <= nn + tol, "latitude outside the tile", box=t.bbox)
    d = (lon - w + tol) % 360
    ctx.check(d <= e - w + 2 * tol, "longitude outside the tile", box=t.bbox)
    ref = tile_edges(z, t.x, t.y)
    for a, b in zip(t.bbox, ref):
        ctx.close(a, b, 1e-9, "edges of the tile")
    if kind != "inside" or rng.random() < 0.2:
        c = t.nw_corner()
        ctx.close(c.x, ref[0], 1e-9, "corner longitude")
        ctx.close(c.y, ref[3], 1e-9, "corner latitude")
        ctx.check(c.crs == LonLatWGS84, "coordinate system of a corner", got=c.crs.name)
    ctx.event(kind)
    ctx.distinct(z, lon, lat)


@scenario(quick=4000, thorough=80000, need={"tiles": 3000})
def partition(ctx):
    """neighbours share edges, children make up their parent, the middle of a tile is in it"""
    rng = ctx.rng
    z = rnd_zoom(rng)
    n = 2 ** z
    x, y = rng.randrange(n), rng.randrange(n)
    if rng.random() < 0.2: x = rng.choice([0, n - 1])
    if rng.random() < 0.2: y = rng.choice([0, n - 1])
    t = Tile(z, x, y)
    ctx.note(z=z, x=x, y=y)
    w, s, e, nn = t.bbox
    ctx.check(w < e and s < nn, "box turned round", box=t.bbox)
    if z < 25:
        f = lambda: rng.uniform(0.02, 0.98)
        p = Point((w + (e - w) * f(), s + (nn - s) * f()), crs=LonLatWGS84)
        ctx.check(tile_from_point(p, z) == t, "tile of a point inside a tile", p=p.vertex())
    if x + 1 < n:
        ctx.close(Tile(z, x + 1, y).bbox[0], e, 1e-9, "edge shared with the eastern neighbour")
    if y + 1 < n:
        ctx.close(Tile(z, x, y + 1).bbox[3], s, 1e-9, "edge shared with the southern neighbour")
    kids = [Tile(z + 1, 2 * x + a, 2 * y + b).bbox for a in (0, 1) for b in (0, 1)]
    for i, f in enumerate((min, min, max, max)):
        ctx.close(f(k[i] for k in kids), t.bbox[i], 1e-9, "children make up their parent")
    ctx.check(t == Tile(z, x, y) and not (t == Tile(z, x + 1, y)) and not (t == Tile(z + 1, x, y)) and not (t == Tile(z, x, y + 1)) and t != 3, "equality of tiles")
    if y == 0: ctx.close(nn, LAT, 1e-9, "northern limit of the map")
    if y == n - 1: ctx.close(s, -LAT, 1e-9, "southern limit of the map")
    ctx.event("tiles")
    ctx.distinct(z, x, y)


@scenario(quick=400, thorough=5000, need={"other_system": 300})
def other_systems(ctx):
    """tiles of positions on other datums are those of their WGS84 positions"""
    rng = ctx.rng
    B = rng.choice(other_datums.SYSTEMS)
    b = other_datums.mover(LonLatWGS84, B)(other_datums.near(rng, 1.0))
    lon, lat = other_datums.mover(B, LonLatWGS84)(b)
    z = rng.randrange(0, 19)
    n = 2.0 ** z
    x = (lon + 180) / 360 * n
    y = (1 - math.asinh(math.tan(math.radians(lat))) / math.pi) / 2 * n
    eps = 1e-9 * n + 1e-9
    if min(x % 1, 1 - x % 1, y % 1, 1 - y % 1) < eps:
        raise Skip
    t = tile_from_point(Point(b, crs=B), z)
    ctx.note(B=B.name, b=b, z=z)
    ctx.eq((t.z, t.x, t.y), (z, int(x), int(y)), "tile of a position on another datum")
    ctx.event("other_system")
    ctx.distinct(B.name, b, z)
