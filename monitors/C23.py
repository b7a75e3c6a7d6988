"""C23 GeoJSON and __geo_interface__: documents written say what the geometry is, and are read back as it."""
import io, json, math, os
import numpy as np
import shapely.geometry
from lib.mon import scenario, Skip
from lib import gen
from lib.geoms import state
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon
from karta.vector.read import read_geojson, from_shape
from karta.crs import LonLatWGS84, Cartesian, WebMercator, NSIDCNorth, LonLatNAD83, ProjectedCRS, GeographicalCRS
import pyproj

RULE = ("a case is a geometry of any kind - two- or three-dimensional, with holes, attributes and properties, geographical or "
        "projected - written and read back, or a GeoJSON document of any nesting made for the purpose, or a geometry handed to "
        "or taken from shapely; distinct by document")
POTSDAM = "+towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7"
OTHERS = [WebMercator, ProjectedCRS("+proj=eqc +lon_0=10 +datum=WGS84", "plate"), ProjectedCRS("+proj=merc +lon_0=-20 +ellps=WGS84 +datum=WGS84", "m"),
          GeographicalCRS("+ellps=bessel", "Potsdam", datum=POTSDAM), GeographicalCRS("+ellps=clrk66", "shifted", datum="+towgs84=-8,160,176"),
          ProjectedCRS("+proj=cea +ellps=bessel " + POTSDAM, "c"), ProjectedCRS("+proj=merc +ellps=airy +towgs84=375,-111,431", "a")]
URN84 = "urn:ogc:def:crs:OGC:1.3:CRS84"
KINDS = ["Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"]
JSONTYPE = dict(Point="Point", Line="LineString", Polygon="Polygon", Multipoint="MultiPoint", Multiline="MultiLineString",
                Multipolygon="MultiPolygon")
CLS = dict(Point=Point, Line=Line, Polygon=Polygon, Multipoint=Multipoint, Multiline=Multiline, Multipolygon=Multipolygon)


def T(v):
    return tuple(float(a) for a in v)


def number(rng):
    return rng.choice([0.0, -1.5, 12.25, rng.uniform(-80, 80), rng.uniform(-80, 80), 1e-7 * rng.random(), float(rng.randrange(-80, 80))])


def pts(rng, n, z):
    return [tuple(number(rng) for _ in range(3 if z else 2)) for _ in range(n)]


def ring(rng, z, c, r):
    """a ring around c: at least three distinct vertices, not self-crossing"""
    n = rng.randrange(3, 8)
    a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    if min((a[(i + 1) % n] - a[i]) % (2 * math.pi) for i in range(n)) < 0.05 or max((a[(i + 1) % n] - a[i]) % (2 * math.pi) for i in range(n)) > 2.2:
        a = [2 * math.pi * i / n for i in range(n)]
    P = [(c[0] + r * math.cos(t), c[1] + r * math.sin(t)) + ((number(rng),) if z else ()) for t in a]
    if rng.random() < 0.5: P.reverse()
    return P


def polygon(rng, z):
    c = (rng.uniform(-60, 60), rng.uniform(-60, 60))
    R = [ring(rng, z, c, 10.0)]
    for k in range(rng.choice([0, 0, 1, 2, 3, 5])):
        R.append(ring(rng, z, (c[0] + (-1.5, 1.5, -1.5, 1.5, 0)[k], c[1] + (0, 0, 2.2, 2.2, -2.5)[k]), 1.0))
    if rng.random() < 0.2:
        R[0].append(R[0][0])        # given closed
    return R


def parts(rng, kind, z):
    if kind == "Point": return pts(rng, 1, z)
    if kind == "Line": return pts(rng, rng.choice([2, 3, 9, 60]), z)
    if kind == "Multipoint": return pts(rng, rng.choice([1, 2, 3, 9, 60]), z)
    if kind == "Polygon": return polygon(rng, z)
    n = rng.choice([1, 2, 3, 7])
    if kind == "Multiline": return [pts(rng, rng.randrange(2, 6), z) for _ in range(n)]
    return [polygon(rng, z) for _ in range(n)]


def jvalue(rng, depth=0):
    k = rng.randrange(9 if depth < 2 else 6)
    if k == 0: return rng.randrange(-10 ** 12, 10 ** 12)
    if k == 1: return rng.choice([0.1, 1e300, -2.5e-7, rng.random()])
    if k == 2: return rng.choice(["", "ab", "zwölf", "日本", "a\"b\\c\n", "<&>", "x" * 300, "12"])
    if k == 3: return None
    if k == 4: return rng.random() < 0.5
    if k == 5: return 0
    if k == 6: return [jvalue(rng, depth + 1) for _ in range(11)]
    if k == 7: return {"k%d" % i: jvalue(rng, depth + 1) for i in range(rng.randrange(4))}
    return "abcdefg"[:rng.randrange(7)]


def properties(rng):
    keys = rng.sample(["name", "id", "a b", "ключ", "", "type", "coordinates", "crs", "n", "z9"], rng.choice([0, 1, 2, 5]))
    return {k: jvalue(rng) for k in keys}


def columns(rng, n):
    d = {}
    for k in rng.sample(["v", "w", "label", "höhe"], rng.choice([0, 1, 2, 3])):
        t = rng.randrange(4)
        d[k] = [[rng.randrange(-5, 10 ** 9) for _ in range(n)], [rng.uniform(-1, 1) for _ in range(n)],
                [rng.choice(["", "ab", "é", "x" * 50]) + str(i) for i in range(n)], [bool(rng.randrange(2)) for _ in range(n)]][t]
    return d


def build(kind, st, props, data, crs):
    kw = dict(properties=dict(props), crs=crs)
    if kind == "Point": return Point(st[0], **kw)
    if kind == "Polygon": return Polygon(st[0], subs=[Polygon(r, crs=crs) for r in st[1:]], **kw)
    if kind == "Line": return Line(st, **kw)
    return CLS[kind](st, data=dict(data) if data else None, **kw)


def plain(g):
    """coordinates of a geometry as nested lists of tuples"""
    if g._geotype == "Polygon":
        for s in g.subs:
            if not isinstance(s, Polygon):
                raise TypeError("a hole is a %s" % type(s).__name__)
        return [[T(v) for v in g.vertices()]] + [[T(v) for v in s.vertices()] for s in g.subs]
    return state(g)


def opened(r):
    return r[:-1] if len(r) > 1 and r[0] == r[-1] else r


def canon(r):
    """a ring without its closing vertex, in one of its two directions"""
    r = opened(r)
    q = r[:1] + r[:0:-1]
    return min(r, q)


def norm(kind, st):
    if kind == "Polygon": return [canon(r) for r in st]
    if kind == "Multipolygon": return [[canon(r) for r in p] for p in st]
    return st


def tuples(c):
    return T(c) if not isinstance(c[0], (list, tuple)) else [tuples(a) for a in c]


def snapshot(g):
    return (plain(g), json.dumps(g.properties, sort_keys=True, default=repr),
            [list(g.d[f]) for f in g.data.fields] if hasattr(g, "data") else None, g.crs.name)


def document(ctx, d, kind, st, props, data, urn, tol=0.0):
    """the document itself, independent of how karta reads it"""
    ctx.eq(d["type"], "Feature", "type of the document")
    ctx.eq(d["geometry"]["type"], JSONTYPE[kind], "type of the geometry in the document")
    c = d["geometry"]["coordinates"]
    got = [T(c)] if kind == "Point" else tuples(c)
    if kind in ("Polygon", "Multipolygon"):
        for r in (got if kind == "Polygon" else [r for p in got for r in p]):
            ctx.check(len(r) >= 4 and r[0] == r[-1], "a ring in the document is not closed", ring=r)
            ctx.check(len(r) < 3 or r[-2] != r[-1], "a ring in the document is closed twice", ring=r)
    if not tol:
        ctx.eq(norm(kind, got), norm(kind, st), "coordinates in the document")
    want = dict(props)
    want.update(data)
    ctx.eq(d["properties"], want, "properties in the document")
    if urn:
        ctx.eq(d["crs"], {"type": "name", "properties": {"name": urn}}, "coordinate system named by the document")
    return got


def matches(ctx, h, kind, st, props, data, crs, what):
    ctx.eq(type(h).__name__, kind, what + ": kind of geometry")
    ctx.eq(norm(kind, plain(h)), norm(kind, st), what + ": coordinates")
    ctx.eq(h.properties, props, what + ": properties")
    if hasattr(h, "data"):
        ctx.eq({f: list(h.d[f]) for f in h.data.fields}, data, what + ": attributes")
        if data:
            k = len(h) - 1
            ctx.eq(h[k].properties, dict(props, **{f: v[k] for f, v in data.items()}), what + ": properties of a member")
    ctx.check(h.crs == crs, what + ": coordinate system")
    if kind == "Polygon":
        ctx.check(all(s.crs == crs for s in h.subs), what + ": coordinate system of the holes")
        a = abs(shoelace(st[0])) - sum(abs(shoelace(r)) for r in st[1:])
        if crs == Cartesian:
            ctx.close(h.area, a, 1e-6, what + ": area")


def shoelace(r):
    return 0.5 * math.fsum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1]))


def case(rng, kinds=KINDS):
    kind = rng.choice(kinds)
    z = rng.random() < 0.35
    st = parts(rng, kind, z)
    props = properties(rng)
    data = {}
    if kind.startswith("Multi"):
        data = columns(rng, len(st))
        props = {k: v for k, v in props.items() if k not in data}
        if any(isinstance(v, list) and len(v) == len(st) for v in props.values()): props = {}
    return kind, z, st, props, data


@scenario(quick=1500, thorough=30000, need={"Point": 100, "Line": 100, "Polygon": 100, "Multipoint": 100, "Multiline": 100, "Multipolygon": 100, "file": 100})
def round_trip(ctx):
    """geographical geometries, written to strings, paths and files"""
    rng = ctx.rng
    kind, z, st, props, data = case(rng)
    g = build(kind, st, props, data, LonLatWGS84)
    before = snapshot(g)
    ctx.note(kind=kind, st=st, props=props, data=data)
    kw = {}
    if rng.random() < 0.3: kw["indent"] = rng.choice([0, 2, 4])
    urn = URN84
    if rng.random() < 0.2: kw["urn"] = urn = "urn:ogc:def:crs:EPSG::4326"
    how = rng.choice(["string", "string", "path", "file"])
    if how == "string":
        s = g.as_geojson(**kw)
        h = read_geojson(s)
    elif how == "path":
        fn = os.path.join(ctx.tmp, "g%d.json" % rng.randrange(3))
        g.to_geojson(fn, **kw)
        with open(fn) as f: s = f.read()
        h = read_geojson(fn)
        ctx.event("file")
    else:
        f = io.StringIO()
        g.to_geojson(f, **kw)
        ctx.check(not f.closed, "the caller's file was closed")
        s = f.getvalue()
        h = read_geojson(io.StringIO(s))
        ctx.event("file")
    ctx.eq(snapshot(g), before, "writing changed the geometry")
    document(ctx, json.loads(s), kind, st, props, data, urn)
    ctx.eq(len(h), 1, "number of geometries read")
    matches(ctx, h[0], kind, st, props, data, LonLatWGS84, "read back")
    s2 = h[0].as_geojson(**kw)
    a, b = json.loads(s), json.loads(s2)
    again = document(ctx, b, kind, st, props, data, urn)
    if kind == "Polygon":
        ctx.eq([len(r) for r in again], [len(r) for r in tuples(a["geometry"]["coordinates"])], "written again: vertices")
    ctx.eq(b["properties"], a["properties"], "written again: properties")
    ctx.event(kind)
    ctx.distinct(s)


@scenario(quick=160, thorough=2000, need={"projected": 20, "kept": 20, "datum": 10})
def projected(ctx):
    """geometries in other coordinate systems, brought to WGS84 or left as they are"""
    rng = ctx.rng
    kind, z, st, props, data = case(rng)

    def mp(s, f):
        return f(s) if isinstance(s, tuple) else [mp(q, f) for q in s]

    if rng.random() < 0.5:
        # left alone
        crs = rng.choice([WebMercator, Cartesian, NSIDCNorth, LonLatNAD83])
        g = build(kind, st, props, data, crs)
        ctx.note(kind=kind, st=st, crs=crs.name)
        urn = rng.choice([None, "urn:ogc:def:crs:EPSG::5806"])
        d = json.loads(g.as_geojson(urn=urn, force_wgs84=False))
        document(ctx, d, kind, st, props, data, urn)
        h, = read_geojson(json.dumps(d), crs=crs)
        matches(ctx, h, kind, st, props, data, crs, "read back")
        ctx.event("kept")
    else:
        crs = rng.choice(OTHERS)
        tr = pyproj.Transformer.from_crs("+proj=longlat +datum=WGS84 +no_defs", crs.get_proj4(), always_xy=True)
        given = mp(st, lambda p: T(tr.transform(p[0], p[1])) + p[2:])
        g = build(kind, given, props, data, crs)
        # shifts of datum drop heights, so they are not undone exactly
        back = pyproj.Transformer.from_crs(crs.get_proj4(), "+proj=longlat +datum=WGS84 +no_defs", always_xy=True)
        st = mp(given, lambda p: T(back.transform(p[0], p[1])) + p[2:])
        ctx.event("datum", int(crs not in OTHERS[:3]))
        before = snapshot(g)
        ctx.note(kind=kind, st=st, crs=crs.name)
        d = json.loads(g.as_geojson())
        got = document(ctx, d, kind, st, props, data, URN84, tol=1e-7)
        r8 = lambda p: tuple(round(a, 5) + 0.0 for a in p)
        # same vertices to 1e-5 degrees: compare with nearest vertices one by one
        def near(a, b):
            if isinstance(a, tuple):
                return len(a) == len(b) and all(abs(u - v) < 1e-7 for u, v in zip(a, b))
            return len(a) == len(b) and all(near(u, v) for u, v in zip(a, b))
        def nring(a, b):
            a, b = opened(a), opened(b)
            return near(a, b) or near(a[:1] + a[:0:-1], b)
        if kind == "Polygon": ok = len(got) == len(st) and all(nring(a, b) for a, b in zip(got, st))
        elif kind == "Multipolygon": ok = len(got) == len(st) and all(len(p) == len(q) and all(nring(a, b) for a, b in zip(p, q)) for p, q in zip(got, st))
        else: ok = near(got, st)
        ctx.check(ok, "coordinates brought to WGS84", got=got, want=st)
        h, = read_geojson(json.dumps(d))
        ctx.eq(type(h).__name__, kind, "kind of geometry read back")
        ctx.eq(h.properties, props, "properties read back")
        ctx.eq(snapshot(g), before, "writing changed the geometry")
        ctx.event("projected")
    ctx.distinct(kind, st)


def geometry_dict(rng, kind, st):
    c = st[0] if kind == "Point" else st
    if kind == "Polygon": c = [closed(r, rng) for r in st]
    if kind == "Multipolygon": c = [[closed(r, rng) for r in p] for p in st]
    d = {"type": JSONTYPE[kind], "coordinates": c}
    if rng.random() < 0.2: d["bbox"] = [0, 0, 1, 1]
    if rng.random() < 0.1: d["foreign"] = {"x": 1}
    return d


def closed(r, rng):
    r = opened(r)
    return r + r[:1]


@scenario(quick=900, thorough=20000, need={"FeatureCollection": 150, "GeometryCollection": 100, "Feature": 100, "bare": 60, "collection in a feature": 30})
def documents(ctx):
    """documents from elsewhere: collections, bare geometries, features without properties"""
    rng = ctx.rng
    crs = rng.choice([LonLatWGS84, LonLatWGS84, LonLatNAD83, Cartesian])

    def feature():
        if rng.random() < 0.1:          # several geometries under the same properties
            a, b = gcol(1)
            p = properties(rng)
            def put(w): return [put(v) for v in w] if isinstance(w, list) else (w[0], w[1], p, {})
            ctx.event("collection in a feature")
            return {"type": "Feature", "geometry": a, "properties": p}, put(b)
        kind, z, st, props, data = case(rng)
        p = dict(props)
        p.update(data)
        f = {"type": "Feature", "geometry": geometry_dict(rng, kind, st), "properties": p}
        if not p and rng.random() < 0.7: f["properties"] = None
        if rng.random() < 0.3: f["id"] = rng.choice([7, "x"])
        return f, (kind, st, props, data)

    def check(h, w, what):
        if isinstance(w, list):
            ctx.check(isinstance(h, list) and len(h) == len(w), what + ": members of a collection")
            for a, b in zip(h, w): check(a, b, what)
        else:
            matches(ctx, h, w[0], w[1], w[2], w[3], crs, what)

    def gcol(depth):
        G, W = [], []
        for _ in range(rng.randrange(1, 4)):
            if depth and rng.random() < 0.2:
                a, b = gcol(depth - 1)
            else:
                kind, z, st, _, _ = case(rng)
                a, b = geometry_dict(rng, kind, st), (kind, st, {}, {})
            G.append(a)
            W.append(b)
        return {"type": "GeometryCollection", "geometries": G}, W

    k = rng.choice(["FeatureCollection", "GeometryCollection", "Feature", "bare"])
    if k == "FeatureCollection":
        F = [feature() for _ in range(rng.choice([0, 1, 2, 5]))]
        doc, want = {"type": k, "features": [f for f, w in F]}, None
        want = [w for f, w in F]
    elif k == "GeometryCollection":
        doc, want = gcol(2)
    elif k == "Feature":
        f, w = feature()
        doc, want = f, [w]
    else:
        kind, z, st, _, _ = case(rng)
        doc, want = geometry_dict(rng, kind, st), [(kind, st, {}, {})]
    if rng.random() < 0.2: doc["crs"] = {"type": "name", "properties": {"name": URN84}}
    s = json.dumps(doc)
    ctx.note(doc=s[:3000])
    h = read_geojson(s, crs=crs)
    if k == "bare" and not isinstance(h, list): h = [h]
    ctx.check(isinstance(h, list), "a list is returned", got=type(h).__name__)
    check(h, want, k)
    ctx.event(k)
    ctx.distinct(s)


@scenario(quick=900, thorough=20000, need={"to shapely": 700, "from shapely": 700})
def interface(ctx):
    """geometries given to and taken from shapely"""
    rng = ctx.rng
    kind, z, st, props, data = case(rng)
    g = build(kind, st, props, data, rng.choice([Cartesian, LonLatWGS84, WebMercator]))
    before = snapshot(g)
    ctx.note(kind=kind, st=st, props=props)
    gi = g.__geo_interface__
    ctx.eq(gi["type"], "Feature", "type of the interface")
    ctx.eq(gi["geometry"]["type"], JSONTYPE[kind], "type of the geometry")
    ctx.eq({k: v for k, v in gi["properties"].items() if k != "_karta_proj4"}, props, "properties of the interface")
    ctx.eq(gi["properties"]["_karta_proj4"], g.crs.get_proj4(), "coordinate system of the interface")
    gi["properties"]["_new"] = 1
    sh = shapely.geometry.shape(g.geomdict)

    def out(s):
        t = s.geom_type
        if t == "Point": return [T(s.coords[0])]
        if t == "LineString": return [T(p) for p in s.coords]
        if t == "Polygon": return [[T(p) for p in r.coords] for r in [s.exterior] + list(s.interiors)]
        if t == "MultiPoint": return [T(p.coords[0]) for p in s.geoms]
        return [out(p) for p in s.geoms]

    ctx.eq(sh.geom_type, JSONTYPE[kind], "type in shapely")
    ctx.eq(norm(kind, out(sh)), norm(kind, st), "coordinates in shapely")
    if "bbox" in g.geomdict and g.crs == Cartesian:
        P = [p for p in flat(st)]
        ctx.eq(T(g.geomdict["bbox"]), (min(p[0] for p in P), min(p[1] for p in P), max(p[0] for p in P), max(p[1] for p in P)), "box in the interface")
    ctx.event("to shapely")
    h = from_shape(sh)
    ctx.eq(type(h).__name__, kind, "kind of geometry from shapely")
    ctx.eq(norm(kind, plain(h)), norm(kind, st), "coordinates from shapely")
    h = from_shape(sh, properties={"a": 1})
    ctx.eq(h.properties, {"a": 1}, "properties given with the shape")
    q = from_shape(g)
    ctx.eq(norm(kind, plain(q)), norm(kind, st), "coordinates from another geometry")
    ctx.eq({k: v for k, v in q.properties.items() if k != "_karta_proj4"}, props, "properties from another geometry")
    ctx.eq(snapshot(g), before, "the geometry changed")
    ctx.event("from shapely")
    ctx.distinct(kind, st)


def flat(s):
    return [s] if isinstance(s, tuple) else [p for q in s for p in flat(q)]
