"""C24 shapefiles: what is written is on disk, complete, when the call returns, and is read back as it was."""
import datetime, gc, math, os, shutil
import numpy as np
from osgeo import ogr, osr
import pyproj
from lib.mon import scenario, Skip
from lib.geoms import state
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon
from karta.vector.read import read_shapefile
from karta.vector import shp
from karta.crs import (LonLatWGS84, LonLatNAD83, LonLatNAD27, WebMercator, NSIDCNorth, NSIDCSouth, UPSNorth, LambertEqualArea,
                       GallPetersEqualArea, ProjectedCRS, GeographicalCRS)

RULE = ("a case is a list of geometries of one kind - two- or three-dimensional, with holes, with attributes of any type a "
        "dBase table holds, missing or mixed - written to a shapefile and read back, by karta and independently by OGR, or a "
        "shapefile made by OGR; distinct by geometries and attributes")
CLS = dict(Point=Point, Line=Line, Polygon=Polygon, Multipoint=Multipoint, Multiline=Multiline, Multipolygon=Multipolygon)
KINDS = sorted(CLS)


def T(v):
    return tuple(float(a) for a in v)


def num(rng):
    return rng.choice([0.0, -1.5, rng.uniform(-80, 80), rng.uniform(-80, 80), 1e-7 * rng.random(), float(rng.randrange(-80, 80))])


def pts(rng, n, z):
    return [tuple(num(rng) for _ in range(3 if z else 2)) for _ in range(n)]


def ring(rng, z, c, r):
    n = rng.randrange(5 if r > 5 else 3, 9)
    o = rng.random()
    a = [2 * math.pi * (i + o + rng.uniform(-0.2, 0.2)) / n for i in range(n)]
    P = [(c[0] + r * math.cos(t), c[1] + r * math.sin(t)) + ((num(rng),) if z else ()) for t in a]
    if rng.random() < 0.5: P.reverse()
    return P


def polygon(rng, z, c=None):
    c = c or (rng.uniform(-60, 60), rng.uniform(-60, 60))
    R = [ring(rng, z, c, 10.0)]
    for k in range(rng.choice([0, 0, 1, 2, 3, 4])):
        R.append(ring(rng, z, (c[0] + (-1.5, 1.5, -1.5, 1.5)[k], c[1] + (0, 0, 2.5, 2.5)[k]), 1.0))
    return R


def parts(rng, kind, z):
    if kind == "Point": return pts(rng, 1, z)
    if kind == "Line": return pts(rng, rng.choice([2, 3, 9, 60]), z)
    if kind == "Multipoint": return pts(rng, rng.choice([1, 2, 3, 9, 60]), z)
    if kind == "Polygon": return polygon(rng, z)
    n = rng.choice([2, 3, 6])
    if kind == "Multiline": return [pts(rng, rng.randrange(2, 6), z) for _ in range(n)]
    return [polygon(rng, z, (-60 + 22 * i, 5.0)) for i in range(n)]


def build(kind, st, props, crs):
    kw = dict(properties=dict(props), crs=crs)
    if kind == "Point": return Point(st[0], **kw)
    if kind == "Polygon": return Polygon(st[0], subs=[Polygon(r, crs=crs) for r in st[1:]], **kw)
    return CLS[kind](st, **kw)


def plain(g):
    if g._geotype == "Polygon":
        return [[T(v) for v in g.vertices()]] + [[T(v) for v in s.vertices()] for s in g.subs]
    return state(g)


def canon(r):
    """a ring without its closing vertex: either direction, any first vertex"""
    r = [tuple(p) for p in r]
    if len(r) > 1 and r[0] == r[-1]: r = r[:-1]
    k = r.index(min(r))
    a = r[k:] + r[:k]
    return min(a, a[:1] + a[:0:-1])


def norm(kind, st):
    if kind == "Polygon": return [canon(st[0])] + sorted(canon(r) for r in st[1:])
    if kind == "Multipolygon": return sorted([canon(p[0])] + sorted(canon(r) for r in p[1:]) for p in st)
    return st


FIELDS = {"int": lambda r: r.choice([0, 1, -1, r.randrange(-10 ** 6, 10 ** 6), 2 ** 31 - 1, -2 ** 31, 999999999, 10 ** 9]),
          "long": lambda r: r.choice([2 ** 31, -2 ** 31 - 1, r.randrange(-10 ** 15, 10 ** 15), 10 ** 17]),
          "mixed int": lambda r: r.choice([r.randrange(100), 10 ** r.randrange(3, 17)]),
          "float": lambda r: r.choice([0.5, -2.25, r.uniform(-1, 1), r.uniform(-1e6, 1e6), 1e-9 * r.random(), 3.0]),
          "number": lambda r: r.choice([r.randrange(-100, 100), r.uniform(-100, 100)]),
          "str": lambda r: r.choice(["a", "T. officinale", "zwölf", "日本 語", "x" * 100, "12", "3.5", "a,b;\"c\"", "None"]) + str(r.randrange(10)),
          "bool": lambda r: r.random() < 0.5,
          "date": lambda r: datetime.date(r.randrange(1900, 2100), r.randrange(1, 13), r.randrange(1, 29))}
NAMES = ["name", "depth", "KIND", "x", "a_b", "id", "Id", "description", "description_en", "description_de", "descriptio", "Name", "NAME", "kind", "population9", "z", "température moyenne", "日本語の名前", "日本語の地名", "höhe"]


def table(rng, n):
    """attributes of n features: {key: [values]}"""
    d = {}
    for k in rng.sample(NAMES, rng.choice([0, 1, 2, 4])):
        t = rng.choice(sorted(FIELDS))
        d[k] = (t, [FIELDS[t](rng) for _ in range(n)])
        if rng.random() < 0.3:
            for i in range(n):
                if rng.random() < 0.4: d[k][1][i] = None
        if rng.random() < 0.1:
            d[k] = (t, [None] * n)
    return d


def same(a, b):
    if a is None or b is None: return a is b
    if isinstance(b, bool): return a == int(b)
    if isinstance(b, (int, float)) and isinstance(a, (int, float)) and (isinstance(a, float) or isinstance(b, float)): return isinstance(a, (int, float)) and abs(a - b) <= 1e-15 + 2e-15 * abs(b) + (0.5 if abs(b) >= 1e15 else 0)
    return type(a) == type(b) and a == b


def attributes(ctx, rows, d, n):
    """every column is there, in order of records, under its name as far as dBase allows"""
    short = {}
    for k in d:
        c = k.upper()
        while len(c.encode("utf-8")) > 10: c = c[:-1]       # dBase names have ten bytes
        short.setdefault(c, []).append(k)
    used = set()
    for s, keys in short.items():
        for k in keys:
            t, vals = d[k]
            if all(v is None for v in vals):
                continue
            if len(keys) == 1 and s != "ID":
                ctx.check(all(s in r for r in rows), "an attribute is missing", key=k, got=list(rows[0]))
                got = [r[s] for r in rows]
                ctx.check(all(same(a, b) for a, b in zip(got, vals)), "values of an attribute", key=k, type=t, got=got, want=vals)
                used.add(s)
            else:
                hit = [c for c in rows[0] if c not in used and c != "id" and all(same(r[c], b) for r, b in zip(rows, vals))]
                ctx.check(hit, "an attribute with a clashing name is lost", key=k, want=vals, got=rows)
                used.add(hit[0])
            ctx.event(t)
    ctx.eq([r["id"] for r in rows], list(range(n)), "numbers of the records")


CRSS = [LonLatWGS84, LonLatNAD83, GeographicalCRS("+a=3396190 +f=0.005886007", "Mars", datum=""), GeographicalCRS("+a=6378206.4 +b=6356583.8", "user's", datum="+datum=NAD27"), LonLatNAD27, WebMercator, NSIDCNorth, NSIDCSouth, UPSNorth, LambertEqualArea, GallPetersEqualArea,
        ProjectedCRS("+proj=utm +zone=33 +datum=WGS84"), ProjectedCRS("+proj=tmerc +lat_0=49 +lon_0=-2 +k=0.9996012717 +x_0=400000 +y_0=-100000 +ellps=airy +units=m", name="tm")]


def same_crs(ctx, got, want):
    ctx.eq(isinstance(got, GeographicalCRS), isinstance(want, GeographicalCRS), "kind of coordinate system")
    ctx.close(got.ellipsoid.a, want.ellipsoid.a, 1e-6, "semi-major axis")
    ctx.close(got.ellipsoid.b, want.ellipsoid.b, 1e-3, "semi-minor axis")
    if isinstance(want, GeographicalCRS):
        f = lambda c: [t for t in c.get_proj4().split() if t.startswith("+datum")]
        ctx.eq(f(got), f(want), "datum of the coordinate system")
    else:
        for q in ((5.0, 40.0), (14.0, 60.0), (-40.0, 70.0)):
            if want is NSIDCSouth: q = (q[0], -q[1])
            a, b = want.project(*q), got.project(*q)
            ctx.check(abs(a[0] - b[0]) < 0.01 and abs(a[1] - b[1]) < 0.01, "projection of the coordinate system", got=got.get_proj4(), want=want.get_proj4())


def nested(st, f):
    return [nested(p, f) for p in st] if isinstance(st, list) else f(st)


def plane(g):
    """coordinates, zero where there is no third one"""
    return nested(plain(g), lambda p: tuple(p[:2]) + (p[2] if len(p) > 2 else 0.0,))


def holes(ctx, R):
    """sub-polygons are in the coordinate system of their polygon"""
    for g in R:
        for s in getattr(g, "subs", []):
            ctx.check(s.crs == g.crs, "coordinate system of a hole")
            ctx.event("holes")


def remove(stem):
    for e in ("shp", "shx", "dbf", "prj", "cpg"):
        if os.path.exists(stem + "." + e): os.remove(stem + "." + e)


@scenario(quick=500, thorough=8000, need={"Point": 40, "Line": 40, "Polygon": 40, "Multipoint": 40, "Multiline": 40, "Multipolygon": 40,
                                          "int": 30, "long": 30, "float": 30, "str": 30, "date": 30, "number": 30, "bool": 30, "mixed int": 30, "again": 100, "holes": 20})
def round_trip(ctx):
    """geometries of one kind written and read back"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    z = rng.random() < 0.35
    crs = rng.choice(CRSS)
    n = rng.choice([1, 1, 2, 3, 12]) if rng.random() < 0.97 else 130
    S = [parts(rng, kind, z) for _ in range(n)]
    d = table(rng, n)
    extra = rng.random() < 0.2
    some = set(rng.sample(range(n), rng.randrange(1, n))) if n > 1 else ()
    mixed = z and n > 1 and rng.random() < 0.3
    if mixed:               # two-dimensional geometries among them
        low = set(rng.sample(range(n), rng.randrange(1, n)))
        S = [nested(st, lambda p: p[:2]) if i in low else st for i, st in enumerate(S)]
        ctx.event("mixed dimensions")
    G = []
    for i in range(n):
        p = {k: v[i] for k, (t, v) in d.items()}
        if extra and i in some: p["only_here"] = 1
        G.append(build(kind, S[i], p, crs))
    before = [(plain(g), dict(g.properties)) for g in G]
    stem = os.path.join(ctx.tmp, rng.choice(["s%d", "s%d", "b.shp.d/s%d", "t.shp%d"]) % rng.randrange(3))
    if not os.path.isdir(os.path.dirname(stem)): os.makedirs(os.path.dirname(stem))
    ctx.note(kind=kind, S=S[:3], d=d, crs=crs.name, n=n)
    if not rng.random() < 0.3: remove(stem)         # sometimes over an earlier file
    fn = stem + (".shp" if n > 1 or rng.random() < 0.5 else "")
    if n == 1 and rng.random() < 0.7: G[0].to_shapefile(fn)
    else: shp.write_shapefile(stem + ".shp", *G)
    # complete on disk now, by another reader's eyes, without waiting for the collector
    ds = ogr.Open(stem + ".shp")
    ctx.check(ds is not None, "the file cannot be opened when the call has returned")
    lyr = ds.GetLayer()
    ctx.eq(lyr.GetFeatureCount(), n, "number of records on disk")
    lyr = None
    ds = None
    for e in ("shp", "shx", "dbf", "prj"):
        ctx.check(os.path.getsize(stem + "." + e) > 0, "a file is missing or empty: " + e)
    R = read_shapefile(fn)
    ctx.eq(len(R), n, "number of geometries read")
    for g, st in zip(R, S):
        k = kind
        ctx.eq(type(g).__name__, k, "kind of geometry")
        if mixed: g, st = plane(g), nested(st, lambda p: tuple(p[:2]) + (p[2] if len(p) > 2 else 0.0,))
        ctx.eq(norm(k, g if mixed else plain(g)), norm(k, st), "coordinates")
    attributes(ctx, [g.properties for g in R], d, n)
    same_crs(ctx, R[0].crs, crs)
    ctx.check(all(g.crs == R[0].crs for g in R), "coordinate systems of the geometries differ")
    holes(ctx, R)
    ctx.eq([(plain(g), dict(g.properties)) for g in G], before, "writing changed the geometries")
    if rng.random() < 0.3 and not mixed:          # written again
        stem2 = os.path.join(ctx.tmp, "again")
        remove(stem2)
        shp.write_shapefile(stem2 + ".shp", *R)
        R2 = read_shapefile(stem2)
        ctx.eq([norm(kind, plain(g)) for g in R2], [norm(kind, st) for st in S], "coordinates read again")
        attributes(ctx, [g.properties for g in R2], d, n)
        same_crs(ctx, R2[0].crs, crs)
        ctx.event("again")
    ctx.event(kind)
    ctx.distinct(kind, S, repr(d))


@scenario(quick=250, thorough=4000, need={"files": 200, "null geometry": 20, "deleted": 30})
def foreign(ctx):
    """shapefiles made by OGR: null geometries, deleted records, missing values, no coordinate system"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    z = rng.random() < 0.3
    stem = os.path.join(ctx.tmp, "f%d" % rng.randrange(3))
    remove(stem)
    ds = ogr.GetDriverByName("ESRI Shapefile").CreateDataSource(stem + ".shp")
    t = {"Point": ogr.wkbPoint, "Line": ogr.wkbLineString, "Polygon": ogr.wkbPolygon, "Multipoint": ogr.wkbMultiPoint,
         "Multiline": ogr.wkbMultiLineString, "Multipolygon": ogr.wkbMultiPolygon}[kind]
    crs = rng.choice(CRSS + [None, None])
    srs = None
    if crs is not None:
        srs = osr.SpatialReference()
        srs.ImportFromWkt(crs.get_wkt())
    lyr = ds.CreateLayer("f", srs, ogr.GT_SetZ(t) if z else t)
    for nm, ft in (("n", ogr.OFTInteger), ("x", ogr.OFTReal), ("s", ogr.OFTString), ("d", ogr.OFTDate), ("big", ogr.OFTInteger64)):
        lyr.CreateField(ogr.FieldDefn(nm, ft))
    want = []
    n = rng.choice([1, 2, 5, 20])
    null = rng.random() < 0.3
    gone = set()
    for i in range(n):
        f = ogr.Feature(lyr.GetLayerDefn())
        row = dict(n=rng.randrange(-1000, 1000), x=rng.randrange(1000) / 8.0, s=FIELDS["str"](rng).encode("ascii", "ignore").decode().strip() + "e",
                   d=FIELDS["date"](rng), big=rng.randrange(10 ** 12))
        for k in row:
            if rng.random() < 0.15: row[k] = None
            if row[k] is None: f.SetFieldNull(k)
            elif k == "d": f.SetField(k, row[k].year, row[k].month, row[k].day, 0, 0, 0.0, 0)
            else: f.SetField(k, row[k])
        st = parts(rng, kind, z)
        if kind == "Polygon":
            c = (rng.uniform(-60, 60), rng.uniform(-60, 60))
            st = polygon(rng, z, c)
        if null and rng.random() < 0.3:
            st = None
            ctx.event("null geometry")
        else:
            fl = lambda p: " ".join(repr(a) for a in p)
            cl = lambda r: "(" + ",".join(fl(p) for p in r + r[:1]) + ")"
            w = {"Point": lambda: "POINT %s(%s)" % ("Z" * z, fl(st[0])),
                 "Line": lambda: "LINESTRING %s(%s)" % ("Z" * z, ",".join(map(fl, st))),
                 "Multipoint": lambda: "MULTIPOINT %s(%s)" % ("Z" * z, ",".join("(" + fl(p) + ")" for p in st)),
                 "Polygon": lambda: "POLYGON %s(%s)" % ("Z" * z, ",".join(map(cl, st))),
                 "Multiline": lambda: "MULTILINESTRING %s(%s)" % ("Z" * z, ",".join("(" + ",".join(map(fl, l)) + ")" for l in st)),
                 "Multipolygon": lambda: "MULTIPOLYGON %s(%s)" % ("Z" * z, ",".join("(" + ",".join(map(cl, p)) + ")" for p in st))}[kind]()
            f.SetGeometry(ogr.CreateGeometryFromWkt(w))
        lyr.CreateFeature(f)
        f = None
        if n > 1 and rng.random() < 0.1:
            gone.add(i)
        elif st is not None:
            want.append((st, row))
    for i in gone:
        lyr.DeleteFeature(i)
        ctx.event("deleted")
    lyr = None
    ds.Destroy()
    ctx.note(kind=kind, z=z, n=n, gone=sorted(gone), crs=crs.name if crs else None, rows=[r for s, r in want][:6])
    if crs is None and os.path.exists(stem + ".prj"): os.remove(stem + ".prj")
    R = read_shapefile(stem)
    ctx.eq(len(R), len(want), "number of geometries read")
    for g, (st, row) in zip(R, want):
        ctx.eq(type(g).__name__, kind, "kind of geometry")
        ctx.eq(norm(kind, plain(g)), norm(kind, st), "coordinates")
        ctx.check(all(same(g.properties[k], v) for k, v in row.items()), "attributes of a record", got=g.properties, want=row)
        ctx.eq(sorted(g.properties), sorted(row), "names of the attributes")
    if R:
        if crs is None: ctx.check(R[0].crs == LonLatWGS84, "coordinate system of a file without one")
        else: same_crs(ctx, R[0].crs, crs)
        ctx.check(all(g.crs == R[0].crs for g in R), "coordinate systems of the geometries differ")
        holes(ctx, R)
    ctx.event("files")
    ctx.distinct(kind, repr(want))


SYS = {"+proj=lonlat +datum=WGS84": LonLatWGS84, "+proj=lonlat +ellps=WGS84 +towgs84=100,-50,20": GeographicalCRS("+ellps=WGS84", "shifted", datum="+towgs84=100,-50,20"),
       "+proj=utm +zone=33 +datum=WGS84": ProjectedCRS("+proj=utm +zone=33 +datum=WGS84"),
       "+proj=laea +lat_0=50 +lon_0=12 +x_0=4321000 +ellps=GRS80 +towgs84=0,0,0": ProjectedCRS("+proj=laea +lat_0=50 +lon_0=12 +x_0=4321000 +ellps=GRS80 +towgs84=0,0,0")}


def flat(st):
    return [p for q in st for p in flat(q)] if isinstance(st, list) else [st]


@scenario(quick=120, thorough=2500, need={"Point": 8, "Line": 8, "Polygon": 8, "Multipoint": 8, "Multiline": 8, "Multipolygon": 8, "files": 100, "other": 100})
def several_systems(ctx):
    """geometries in different coordinate systems in a file: all are read back where they are"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    z = rng.random() < 0.3
    n = rng.choice([2, 3, 5])
    defs = [rng.choice(sorted(SYS)) for _ in range(n)]
    # positions are made by moving the numbers to around 12 E, 50 N
    G, S = [], []
    lonlat = pyproj.Proj("+proj=lonlat +datum=WGS84")
    for d in defs:
        P = pyproj.Proj(d)
        st = nested(parts(rng, kind, z), lambda p: (12 + p[0] / 40, 50 + p[1] / 40) + tuple(p[2:]))
        if "+proj=lonlat" not in d: st = nested(st, lambda p: tuple(float(a) for a in P(*p[:2])) + tuple(p[2:]))
        S.append(st)
        G.append(build(kind, st, {"n": len(S)}, SYS[d]))
    before = [(plain(g), g.crs) for g in G]
    ctx.note(kind=kind, defs=defs, S=S)
    stem = os.path.join(ctx.tmp, "v%d" % rng.randrange(3))
    remove(stem)
    shp.write_shapefile(stem + ".shp", *G)
    R = read_shapefile(stem)
    ctx.eq(len(R), n, "number of geometries read")
    same_crs(ctx, R[0].crs, SYS[defs[0]])
    ctx.eq([g.properties["N"] for g in R], [i + 1 for i in range(n)], "attributes")
    tol = 1e-7 if "lonlat" in defs[0] else 0.01
    for g, st, d in zip(R, S, defs):
        ctx.eq(type(g).__name__, kind, "kind of geometry")
        if d != defs[0]:
            a, b = pyproj.Proj(d), pyproj.Proj(defs[0])
            st = nested(st, lambda p: tuple(float(v) for v in pyproj.transform(a, b, p[0], p[1])) + tuple(p[2:]))
            ctx.event("other")
        got, want = sorted(flat(plain(g))), sorted(flat(st))
        if kind in ("Point", "Line", "Multipoint", "Multiline"): got, want = flat(plain(g)), flat(st)
        got, want = np.array([T(p) for p in got]), np.array([T(p) for p in want])
        ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=tol), "a geometry in another system is misplaced", got=got.tolist()[:4], want=want.tolist()[:4])
    ctx.eq([(plain(g), g.crs) for g in G], before, "writing changed the geometries")
    ctx.event(kind)
    ctx.event("files")
    ctx.distinct(kind, repr(S), defs)
