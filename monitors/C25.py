"""C25 GPX: waypoints, tracks and routes written are read back in order, with coordinates, properties and extensions."""
import io, math, os
import xml.etree.ElementTree as ET
import numpy as np
from lib.mon import scenario, Skip
from karta import Point, Line, Multipoint
from karta.vector import _gpx as gpx
from karta.vector.read import read_gpx_waypts, read_gpx_tracks
import pyproj
from karta.crs import LonLatWGS84, LonLatNAD27, WebMercator, ProjectedCRS, LambertEqualArea

RULE = ("a case is a GPX document of waypoints, tracks of several segments and routes, with properties, extensions and elevations, "
        "built from geometries or given as XML, written, read and written again; distinct by contents")
NS = "{http://www.topografix.com/GPX/1/1}"
STD = ["ele", "time", "name", "cmt", "desc", "src", "sym", "type", "hdop", "sat"]
EXT = ["depth", "species", "temp_c", "hdg-x", "X1"]


def T(v):
    return tuple(float(a) for a in v)


def text(rng):
    return rng.choice(["a", "T. officinale", "zwölf", "日本", "<&>\"'", "a  b", "2015-06-01T12:00:00Z", "x" * 300, "12", "None "]) + str(rng.randrange(99))


def value(rng):
    return rng.choice([text(rng), rng.randrange(-100, 9000), rng.uniform(-10, 10), True])


def attrs(rng, n=None, pool=None):
    return {k: value(rng) for k in rng.sample(pool or STD + EXT, rng.randrange(0, 5) if n is None else n)}


def lonlat(rng):
    if rng.random() < 0.1: return (rng.choice([-180.0, 180.0, 0.0]), rng.choice([-90.0, 90.0, 0.0]))
    if rng.random() < 0.2: return (rng.uniform(-1e-5, 1e-5), rng.uniform(-1e-5, 1e-5))
    return (rng.uniform(-180, 180), rng.uniform(-90, 90))


UTM33 = ProjectedCRS("+proj=utm +zone=33 +datum=WGS84")
LAEA = ProjectedCRS("+proj=laea +lat_0=50 +lon_0=12 +ellps=GRS80 +towgs84=0,0,0")
DEFS = [(UTM33, "+proj=utm +zone=33 +datum=WGS84"), (LAEA, "+proj=laea +lat_0=50 +lon_0=12 +ellps=GRS80 +towgs84=0,0,0"),
        (WebMercator, "+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +nadgrids=@null +wktext"),
        (LonLatNAD27, "+proj=lonlat +ellps=clrk66 +datum=NAD27")]


def elsewhere(ctx, P):
    """positions in a system, and where they are in WGS84: [(x, y, ...)], [(lon, lat, ...)], system"""
    rng = ctx.rng
    if rng.random() < 0.7: return P, P, LonLatWGS84
    crs, d = rng.choice(DEFS)
    if crs is LonLatNAD27: Q = [(rng.uniform(-110, -80), rng.uniform(30, 50)) + tuple(p[2:]) for p in P]
    else:
        p4 = pyproj.Proj(d)
        Q = [tuple(float(a) for a in p4(rng.uniform(8, 18), rng.uniform(40, 60))) + tuple(p[2:]) for p in P]
    W = [tuple(float(a) for a in pyproj.transform(pyproj.Proj(d), pyproj.Proj("+proj=lonlat +ellps=WGS84 +datum=WGS84"), q[0], q[1])) + tuple(q[2:]) for q in Q]
    ctx.event("elsewhere")
    return Q, W, crs


def split(p):
    """properties and extensions, as text"""
    return ({k: str(v) for k, v in p.items() if k in gpx.VALID_PROPERTIES}, {k: str(v) for k, v in p.items() if k not in gpx.VALID_PROPERTIES})


def seg(ctx):
    """(geometry, model of it: points as (lon, lat, properties, extensions), properties, extensions)"""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 20])
    z = rng.random() < 0.4
    P = [lonlat(rng) + ((rng.uniform(0, 4000),) if z else ()) for _ in range(n)]
    P, W, crs = elsewhere(ctx, P)
    props = attrs(rng)
    cols = {}
    if rng.random() < 0.3 and n > 1:
        g = Line(P, properties=dict(props), crs=crs)
    else:
        for k in rng.sample([k for k in STD + EXT if not (z and k == "ele")], rng.choice([0, 0, 1, 3])):
            t = rng.randrange(3)
            cols[k] = [[text(rng) for _ in range(n)], [rng.randrange(99) for _ in range(n)], [rng.uniform(-1, 1) for _ in range(n)]][t]
        g = Multipoint(P, properties=dict(props), data={k: list(v) for k, v in cols.items()} or None, crs=crs)
    pts = []
    for i, p in enumerate(W):
        a, b = split({k: v[i] for k, v in cols.items()})
        if z: a["ele"] = p[2]
        pts.append((p[0], p[1], a, b))
    return g, (pts,) + split(props)


def same_text(got, want):
    """numbers may be written in any way that reads as the same number"""
    if set(got) != set(want): return False
    for k in want:
        a, b = got[k], want[k]
        if a == b or str(a) == str(b): continue
        try:
            if float(a) == float(b): continue
        except (TypeError, ValueError):
            pass
        return False
    return True


def same_point(ctx, got, want, what):
    ctx.check(abs(got.lonlat[0] - want[0]) <= 5.1e-7 and abs(got.lonlat[1] - want[1]) <= 5.1e-7, what + ": position", got=got.lonlat, want=want[:2])
    ctx.check(same_text(got.properties, want[2]), what + ": properties of a point", got=got.properties, want=want[2])
    ctx.check(same_text(got.extensions, want[3]), what + ": extensions of a point", got=got.extensions, want=want[3])


def same_points(ctx, got, want, what):
    ctx.eq(len(got), len(want), what + ": number of points")
    for a, b in zip(got, want): same_point(ctx, a, b, what)


def agree(ctx, doc, W, what):
    """document against model"""
    wpt, trk, rte = W
    same_points(ctx, doc.waypts, wpt, what + ": waypoints")
    ctx.eq(len(doc.tracks), len(trk), what + ": number of tracks")
    for t, (segs, p, e) in zip(doc.tracks, trk):
        ctx.check(same_text(t.properties, p), what + ": properties of a track", got=t.properties, want=p)
        ctx.check(same_text(t.extensions, e), what + ": extensions of a track", got=t.extensions, want=e)
        ctx.eq(len(t.trksegs), len(segs), what + ": number of segments")
        for s, (pts, sp, se) in zip(t.trksegs, segs):
            ctx.check(same_text(s.properties, sp), what + ": properties of a segment", got=s.properties, want=sp)
            ctx.check(same_text(s.extensions, se), what + ": extensions of a segment", got=s.extensions, want=se)
            same_points(ctx, s.trkpts, pts, what + ": track")
    ctx.eq(len(doc.routes), len(rte), what + ": number of routes")
    for r, (pts, p) in zip(doc.routes, rte):
        ctx.check(same_text(r.properties, p), what + ": properties of a route", got=r.properties, want=p)
        same_points(ctx, r.rtepts, pts, what + ": route")


def near(ctx, nodes, pts, what):
    ctx.eq(len(nodes), len(pts), what + ": number")
    for e, p in zip(nodes, pts):
        ctx.check(abs(float(e.get("lon")) - p[0]) <= 1e-8 and abs(float(e.get("lat")) - p[1]) <= 1e-8, what, got=(e.get("lon"), e.get("lat")), want=p[:2])


def xml(ctx, s, W, flags=(True, True, True)):
    """the document itself"""
    root = ET.fromstring(s)
    ctx.eq(root.tag, NS + "gpx", "root of the document")
    wpt, trk, rte = [w if f else [] for w, f in zip(W, flags)]
    ctx.eq([len(root.findall(NS + t)) for t in ("wpt", "trk", "rte")], [len(wpt), len(trk), len(rte)], "numbers of elements")
    for e, w in zip(root.findall(NS + "wpt"), wpt):
        near(ctx, [e], [w], "position in the document")
    for e, (segs, p, x) in zip(root.findall(NS + "trk"), trk):
        S = e.findall(NS + "trkseg")
        ctx.eq(len(S), len(segs), "number of segments in the document")
        for a, b in zip(S, segs): near(ctx, a.findall(NS + "trkpt"), b[0], "positions of a track in the document")
    for e, (pts, p) in zip(root.findall(NS + "rte"), rte):
        near(ctx, e.findall(NS + "rtept"), pts, "positions of a route in the document")


@scenario(quick=1200, thorough=25000, need={"waypoints": 500, "tracks": 500, "routes": 300, "segments": 500, "elsewhere": 500})
def round_trip(ctx):
    """documents built from geometries"""
    rng = ctx.rng
    doc = gpx.GPX()
    wpt, trk, rte = [], [], []
    inputs = []
    for _ in range(rng.choice([0, 1, 2, 7])):
        p, a = lonlat(rng), attrs(rng)
        if rng.random() < 0.3 and "ele" not in a: p = p + (rng.uniform(0, 4000),)
        (q,), (w,), crs = elsewhere(ctx, [p])
        g = Point(q, properties=dict(a), crs=crs)
        inputs.append((g, dict(a)))
        doc.add_waypoint(g)
        a = dict(a)
        if len(w) == 3: a["ele"] = w[2]
        wpt.append(w[:2] + split(a))
        ctx.event("waypoints")
    for _ in range(rng.choice([0, 1, 1, 3])):
        S = [seg(ctx) for _ in range(rng.randrange(1, 4))]
        a = attrs(rng)
        if rng.random() < 0.5:
            doc.add_track(*[g for g, m in S], attributes=a)
        else:
            a = {}
            doc.add_track(*[g for g, m in S])
        inputs += [(g, dict(g.properties)) for g, m in S]
        trk.append(([m for g, m in S],) + split(a))
        ctx.event("tracks")
        ctx.event("segments", len(S))
    for _ in range(rng.choice([0, 1, 2])):
        g, m = seg(ctx)
        pts = [(p[0], p[1], dict(p[2], **p[3]), {}) for p in m[0]]
        doc.add_route(g)
        inputs.append((g, dict(g.properties)))
        rte.append((pts, {k: str(v) for k, v in g.properties.items()}))
        ctx.event("routes")
    W = (wpt, trk, rte)
    ctx.note(W=W)
    how = rng.randrange(3)
    fn = os.path.join(ctx.tmp, "t%d.gpx" % rng.randrange(3))
    doc.writefile(fn)
    with open(fn, "rb") as f: raw = f.read()
    xml(ctx, raw, W)
    flags = tuple(rng.random() < 0.6 for _ in range(3))
    xml(ctx, doc.as_string(waypts=flags[0], tracks=flags[1], routes=flags[2]), W, flags)
    if how == 0: back = gpx.GPX(fn)
    elif how == 1: back = gpx.GPX(io.BytesIO(raw))
    else: back = gpx.GPX(io.StringIO(doc.as_string()))
    agree(ctx, back, W, "read back")
    again = gpx.GPX(io.StringIO(back.as_string()))
    agree(ctx, again, W, "read again")
    # the same, as geometries
    P = read_gpx_waypts(fn)
    ctx.eq(len(P), len(wpt), "number of waypoints as points")
    for p, w in zip(P, wpt):
        ctx.check(isinstance(p, Point) and p.crs == LonLatWGS84, "waypoints are points in geographical coordinates")
        ctx.check(abs(p.x - w[0]) <= 5.1e-7 and abs(p.y - w[1]) <= 5.1e-7, "position of a waypoint", got=p.vertex(), want=w[:2])
        ctx.check(same_text(p.properties, w[2]), "properties of a waypoint", got=p.properties, want=w[2])
    if all(len(s[0]) > 1 for t in trk for s in t[0]):
        L = read_gpx_tracks(fn)
        ctx.eq([len(t) for t in L], [len(t[0]) for t in trk], "numbers of segments as lines")
        for t, w in zip(L, trk):
            for l, s in zip(t, w[0]):
                ctx.check(isinstance(l, Line) and l.crs == LonLatWGS84, "segments are lines in geographical coordinates")
                ctx.arr_eq(l.vertices(), np.array([q[:2] for q in s[0]]), "vertices of a segment", atol=5.1e-7)
                ctx.check(same_text(l.properties, s[1]), "properties of a segment", got=l.properties, want=s[1])
    for g, p in inputs:
        ctx.eq(g.properties, p, "properties of a geometry changed")
    if rng.random() < 0.3:          # the document is not the geometries' properties
        for w in doc.waypts: w.properties["name"] = "changed"
        for t in doc.tracks:
            t.properties["name"] = "changed"
            for q in t.trksegs: q.properties["name"] = "changed"
        for r in doc.routes: r.properties["name"] = "changed"
        for g, p in inputs:
            ctx.eq(g.properties, p, "properties of a geometry changed with the document")
    # lists of geometries given to the constructor
    if rng.random() < 0.3 and inputs:
        pts = [g for g, p in inputs if isinstance(g, Point)]
        segs = [m for t in trk for m in t[0]]
        gs = [g for g, p in inputs if not isinstance(g, Point)][:len(segs)]
        d = gpx.GPX(waypoints=pts, tracks=gs)
        agree(ctx, gpx.GPX(io.StringIO(d.as_string())), (wpt, [([m], {}, {}) for m in segs], []), "made by the constructor")
    ctx.distinct(repr(W))


@scenario(quick=600, thorough=10000, need={"documents": 500})
def documents(ctx):
    """documents given as XML, with empty elements, elements in any order, other namespaces and formatting"""
    rng = ctx.rng
    root = ET.Element(NS + "gpx", version="1.1", creator="someone")
    ws = rng.choice(["", "\n  "])

    def sub(parent, tag, txt):
        e = ET.SubElement(parent, tag)
        e.text = txt
        e.tail = ws
        return e

    def fill(e, p, x):
        order = [(k, v, False) for k, v in p.items()]
        for k, v in p.items(): sub(e, NS + k, v)
        if x or rng.random() < 0.3:
            ex = sub(e, NS + "extensions", ws or None)
            for k, v in x.items(): sub(ex, rng.choice([NS, "{http://example.com/x}"]) + k, v)

    def txt():
        t = rng.choice([None, text(rng), text(rng), text(rng)])
        return t

    def some(pool):
        return {k: txt() for k in rng.sample(pool, rng.randrange(4))}

    def point(parent, tag):
        lon, lat = lonlat(rng)
        e = sub(parent, NS + tag, None)
        e.set("lon", "%.7f" % lon)
        e.set("lat", "%.7f" % lat)
        p, x = some(STD), some(EXT)
        fill(e, p, x)
        return (float("%.7f" % lon), float("%.7f" % lat), p, x)

    wpt, trk, rte = [], [], []
    for k in [rng.choice(["wpt", "trk", "rte", "metadata"]) for _ in range(rng.randrange(0, 8))]:
        if k == "wpt": wpt.append(point(root, "wpt"))
        elif k == "metadata":
            m = sub(root, NS + "metadata", None)
            sub(m, NS + "name", "x")
        elif k == "trk":
            t = sub(root, NS + "trk", None)
            p, x = some(STD), some(EXT)
            fill(t, p, x)
            segs = []
            for _ in range(rng.randrange(0, 4)):
                s = sub(t, NS + "trkseg", None)
                sx = some(EXT)
                pts = [point(s, "trkpt") for _ in range(rng.randrange(0, 5))]
                fill(s, {}, sx)
                segs.append((pts, {}, sx))
            trk.append((segs, p, x))
        else:
            r = sub(root, NS + "rte", None)
            p = some(STD)
            fill(r, p, {})
            rte.append(([point(r, "rtept") for _ in range(rng.randrange(0, 5))], p))
    s = ET.tostring(root)
    ctx.note(doc=s.decode()[:3000])
    W = (wpt, trk, rte)
    d = gpx.GPX(io.BytesIO(s))
    agree(ctx, d, W, "document")
    agree(ctx, gpx.GPX(io.StringIO(d.as_string())), W, "document written again")
    ctx.event("documents")
    ctx.distinct(s)
