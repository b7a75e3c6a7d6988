"""C27 Asking questions changes nothing: answers depend on the content of objects only."""
import copy, gc, sys, threading
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
from lib.geoms import coords
from karta import Point, Line, Polygon, Multipoint, Multiline, RegularGrid
from karta.vector.geometry import Multipolygon, Geometry
from karta.vector.table import Table
from karta.crs import Cartesian, LonLatWGS84, SphericalEarth, WebMercator, NSIDCNorth, LonLatNAD83
import karta
from karta.raster.band import SimpleBand, CompressedBand
from karta.raster import grid as _grid

RULE = ("a case is a set of related geometries or grids and a random history of questions, derivations, edits and changes to "
        "returned or given containers; every answer is compared with that of objects built afresh from the same content, and "
        "contents are compared with a snapshot; distinct by kinds and history")

KINDS = ["Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"]


# -- plain descriptions -----------------------------------------------------

def spec(rng, kind, crs, S=20.0, z=None):
    z = rng.random() < 0.2 if z is None else z
    props = {}
    if rng.random() < 0.6:
        props = {"name": rng.choice(["a", "b", "zwölf"]), "k": rng.randrange(5)}
    s = dict(kind=kind, crs=crs, props=props, data=None, subs=[])
    if kind == "Point":
        s["xy"] = coords(rng, 1, z, S)[0]
        return s
    if kind == "Line":
        s["xy"] = coords(rng, rng.choice([2, 3, 4, 8, 30]), z, S)
    elif kind == "Polygon":
        P = gen.star_polygon(rng, rng.uniform(-S / 2, S / 2), rng.uniform(-S / 2, S / 2), S * rng.choice([0.1, 0.4]), n=rng.randrange(3, 9))
        s["xy"] = [p + (1.0,) for p in P] if z else P
        for _ in range(rng.choice([0, 0, 1, 2])):
            s["subs"].append(dict(kind="Polygon", crs=crs, props={}, data=None, subs=[],
                                  xy=[(a * 0.5 + 0.1, b * 0.5) + ((2.0,) if z else ()) for a, b in P]))
    else:
        n = rng.choice([1, 2, 5, 52, 90]) if kind == "Multipoint" else rng.choice([1, 2, 3, 8, 55])
        if kind == "Multipoint":
            s["xy"] = coords(rng, n, z, S)
        elif kind == "Multiline":
            s["xy"] = [coords(rng, rng.randrange(2, 5), z, S) for _ in range(n)]
        else:
            s["xy"] = [[gen.star_polygon(rng, rng.uniform(-S / 2, S / 2), rng.uniform(-S / 2, S / 2), S * 0.1, n=rng.randrange(3, 6))
                        for _ in range(rng.randrange(1, 3))] for _ in range(n)]
        if rng.random() < 0.7:
            s["data"] = {"v": [rng.randrange(9) for _ in range(n)], "s": ["r%d" % i for i in range(n)]}
    return s


CLS = dict(Point=Point, Line=Line, Polygon=Polygon, Multipoint=Multipoint, Multiline=Multiline, Multipolygon=Multipolygon)


def build(s):
    k = dict(properties=copy.deepcopy(s["props"]), crs=s["crs"])
    if s["kind"] == "Polygon":
        k["subs"] = [build(t) for t in s["subs"]]
    if s["kind"].startswith("Multi"):
        k["data"] = copy.deepcopy(s["data"])
    return CLS[s["kind"]](copy.deepcopy(s["xy"]), **k)


# -- snapshots of objects and canonical forms of answers ----------------------

def num(x):
    x = float(x)
    return "nan" if x != x else x


def canon(x, depth=0):
    if depth > 8:
        return "deep"
    if isinstance(x, Geometry):
        return snap(x)
    if isinstance(x, RegularGrid):
        return gsnap(x)
    if isinstance(x, Table):
        return ("Table", sorted((f, canon(x.getfield(f), depth + 1)) for f in x.fields), len(x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return num(x)
    if isinstance(x, str) or x is None:
        return x
    if isinstance(x, np.ndarray):
        return ("array", x.shape, canon(x.tolist(), depth + 1))
    if isinstance(x, dict):
        return ("dict", sorted(((str(a), canon(b, depth + 1)) for a, b in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return [canon(a, depth + 1) for a in x]
    if isinstance(x, karta.crs.CRS):
        return ("crs", type(x).__name__, x.name)
    if hasattr(x, "__next__"):
        return [canon(a, depth + 1) for a in x]
    if hasattr(x, "asarray"):
        return canon(x.asarray(), depth + 1)
    if type(x).__name__ in ("int32", "int64"):
        return num(x)
    return type(x).__name__


def verts(g):
    t = g._geotype
    if t == "Point":
        return [num(a) for a in g.vertex()]
    return canon(list(g.vertices()) if len(g) else [])


def snap(g):
    t = g._geotype
    s = [t, verts(g), canon(dict(g.properties)), canon(g.crs)]
    if t == "Polygon":
        s.append([snap(q) for q in g.subs])
    if t.startswith("Multi"):
        s.append(canon(g.data))
    return s


def gsnap(g):
    return ("grid", canon(g[:, :, :]), str(np.dtype(g.values.dtype)), canon(g.transform), canon(g.nodata), canon(g.crs), g.nbands)


def same(ctx, a, b, msg, **kw):
    ctx.check(a == b, msg, got=a, want=b, **kw)


# -- questions ---------------------------------------------------------------

def crss(rng):
    return rng.choice([Cartesian, Cartesian, Cartesian, SphericalEarth])


def question(rng, S):
    """(name, kinds of the operands, function of the operands)"""
    i = rng.randrange(-3, 3)
    sl = slice(rng.choice([None, 0, 1, -2]), rng.choice([None, 2, -1, 5]), rng.choice([None, 1, 2, -1]))
    b = tuple(sorted([rng.uniform(-S, S), rng.uniform(-S, S)])) + tuple(sorted([rng.uniform(-S, S), rng.uniform(-S, S)]))
    b = (b[0], b[2], b[1], b[3])
    d = rng.choice([0.5, 3.0, 1e6])
    sh = (rng.uniform(-3, 3), 1.0)
    th = rng.uniform(0, 360)
    M = np.array([[1.0, 0.5, 2.0], [0.0, 2.0, 1.0]])
    anyk = KINDS
    multiv = ["Line", "Polygon", "Multipoint"]
    parts = ["Multiline", "Multipolygon"]
    Q = [
        ("bbox", [anyk[1:]], lambda g: g.bbox()), ("extent", [multiv], lambda g: g.extent()),
        ("bbox_crs", [anyk[1:]], lambda g: g.bbox(crs=g.crs)),
        ("coords", [multiv + parts], lambda g: g.coords()), ("vertices", [multiv + parts], lambda g: g.vertices()),
        ("geomdict", [anyk], lambda g: g.geomdict), ("geo", [anyk], lambda g: g.__geo_interface__),
        ("json", [anyk], lambda g: g.as_geojson()), ("iter", [anyk[1:]], lambda g: list(g)), ("len", [anyk[1:]], len),
        ("item", [anyk[1:]], lambda g: g[i]), ("slice", [anyk[1:]], lambda g: g[sl]),
        ("hash", [anyk], hash), ("eq", [anyk, anyk], lambda g, h: g == h), ("ne", [anyk, anyk], lambda g, h: g != h),
        ("shift", [["Point"] + multiv], lambda g: g.shift(sh)), ("transform", [anyk], lambda g: g.apply_transform(M)),
        ("rotate", [["Point", "Line", "Polygon", "Multipoint"]], lambda g: g.rotate(th)),
        ("length", [["Line"]], lambda g: g.length), ("perimeter", [["Polygon"]], lambda g: g.perimeter),
        ("area", [["Polygon"]], lambda g: g.area), ("centroid", [["Polygon"]], lambda g: g.centroid),
        ("cw", [["Polygon"]], lambda g: g.isclockwise()), ("ring", [["Polygon"]], lambda g: g.vertices_ring),
        ("hull", [multiv], lambda g: g.convex_hull()), ("segments", [["Line", "Polygon"]], lambda g: list(g.segments)),
        ("tuples", [["Line", "Polygon"]], lambda g: list(g.segment_tuples)),
        ("cumulength", [["Line"]], lambda g: g.cumulength()), ("topoints", [["Line"]], lambda g: g.to_npoints(5)),
        ("displacement", [["Line"]], lambda g: g.displacement()), ("topolygon", [["Line"]], lambda g: g.to_polygon()),
        ("toline", [["Polygon"]], lambda g: g.to_line()), ("polar", [["Polygon"]], lambda g: g.ispolar()),
        ("nearest", [multiv, ["Point"]], lambda g, p: g.nearest_vertex_to(p)),
        ("distances", [multiv, ["Point"]], lambda g, p: g.distances_to(p)),
        ("flat", [multiv, ["Point"]], lambda g, p: g.flat_distances_to(p)),
        ("shortest", [["Line", "Polygon"], ["Point"]], lambda g, p: g.shortest_distance_to(p)),
        ("within_distance", [["Line", "Polygon"], ["Point"]], lambda g, p: g.within_distance(p, d)),
        ("boundary", [["Line", "Polygon"], ["Point"]], lambda g, p: g.nearest_on_boundary(p)),
        ("contains", [["Polygon"], ["Point"]], lambda g, p: g.contains(p)),
        ("contains?", [["Multipoint"], ["Point"]], lambda g, p: p in g),
        ("intersects", [["Line", "Polygon"], ["Line", "Polygon"]], lambda g, h: g.intersects(h)),
        ("intersections", [["Line", "Polygon"], ["Line", "Polygon"]], lambda g, h: g.intersections(h)),
        ("any_within", [multiv, ["Polygon"]], lambda g, h: g.any_within_poly(h)),
        ("distance", [["Point"], ["Point"]], lambda g, h: g.distance(h)), ("azimuth", [["Point"], ["Point"]], lambda g, h: g.azimuth(h)),
        ("walk", [["Point"]], lambda g: g.walk(2.0, th)), ("vertex", [["Point"]], lambda g: g.vertex()),
        ("within_radius", [["Multipoint"], ["Point"]], lambda g, p: g.within_radius(p, d)),
        ("within_bbox", [["Multipoint"] + parts], lambda g: g.within_bbox(b)),
        ("within_polygon", [["Multipoint"], ["Polygon"]], lambda g, h: g.within_polygon(h)),
        ("touching_bbox", [parts], lambda g: g.touching_bbox(b)), ("touching", [parts, ["Line", "Polygon"]], lambda g, h: g.touching(h)),
        ("within", [parts, ["Polygon"]], lambda g, h: g.within(h)),
        ("d", [anyk[3:]], lambda g: [g.d[f] for f in sorted(g.data.fields)]), ("d0", [anyk[3:]], lambda g: g.d[0]),
        ("add", [["Point"], ["Point"]], lambda g, h: g + h), ("add", [["Line"], ["Line"]], lambda g, h: g + h),
        ("add", [["Polygon"], ["Polygon"]], lambda g, h: g + h),
        ("merge", [["Multipoint"], ["Multipoint", "Point"]], lambda g, h: Multipoint.merge(g, h)),
        ("merge", [["Multiline"], ["Multiline", "Line"]], lambda g, h: Multiline.merge(g, h)),
        ("merge", [["Multipolygon"], ["Multipolygon", "Polygon"]], lambda g, h: Multipolygon.merge(g, h)),
        ("collect", [["Line"], ["Line"]], lambda g, h: Multiline([g, h])), ("collect", [["Point"], ["Point"]], lambda g, h: Multipoint([g, h])),
        ("collect", [["Polygon"], ["Polygon"]], lambda g, h: Multipolygon([g, h])),
        ("line", [["Point"], ["Point"]], lambda g, h: Line([g, h])),
        ("hole", [["Polygon"], ["Polygon"]], lambda g, h: Polygon(g.vertices(), subs=[h], crs=g.crs)),
    ]
    return rng.choice(Q)


def ask(f, args):
    """canonical answer, or the type of error"""
    try:
        r = f(*args)
        return r, canon(r)
    except Exception as e:
        return None, ("raises", type(e).__name__)


def world(rng, n=None):
    crs = crss(rng)
    S = 20.0
    ks = [rng.choice(KINDS) for _ in range(n or rng.choice([2, 3, 4]))]
    ks += ["Point", "Polygon"]
    return [spec(rng, k, crs, S) for k in ks], S


def pick(rng, specs, kinds):
    c = [i for i, s in enumerate(specs) if s["kind"] in kinds]
    return rng.choice(c) if c else None


@scenario(quick=300, thorough=8000, need={"asked": 2800, "answered": 2000, "again": 400})
def questions(ctx):
    """a history of questions leaves objects as they were and is answered as for fresh objects"""
    rng = ctx.rng
    specs, S = world(rng)
    live = [build(s) for s in specs]
    before = [snap(g) for g in live]
    ctx.note(specs=[(s["kind"], s["xy"] if len(s["xy"]) < 12 else len(s["xy"])) for s in specs])
    hist = []
    asked = []
    for _ in range(14):
        if asked and rng.random() < 0.25:
            name, idx, f, want = rng.choice(asked)
            ctx.event("again")
        else:
            name, kinds, f = question(rng, S)
            idx = [pick(rng, specs, k) for k in kinds]
            if None in idx:
                continue
            if rng.random() < 0.1 and len(idx) == 2 and specs[idx[0]]["kind"] in kinds[1]:
                idx[1] = idx[0]
            _, want = ask(f, [build(specs[i]) for i in idx])
            asked.append((name, idx, f, want))
        hist.append((name, tuple(idx)))
        _, got = ask(f, [live[i] for i in idx])
        ctx.event("asked")
        if not (isinstance(want, tuple) and want and want[0] == "raises"):
            ctx.event("answered")
        same(ctx, got, want, "answer depends on history: %s" % name, history=hist)
    ctx.note(history=hist)
    ctx.distinct(tuple(hist))
    for g, b, s in zip(live, before, specs):
        same(ctx, snap(g), b, "questions changed a %s" % s["kind"], history=hist)
        same(ctx, snap(build(s)), b, "building changed the input of a %s" % s["kind"])


def spoil(x, rng, depth=0):
    """change every mutable container reachable in a returned value; True if something was changed"""
    done = False
    if depth > 6 or isinstance(x, (str, bytes)):
        return False
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = 77
            return True
        return False
    if isinstance(x, Geometry):
        x.properties["spoilt"] = 1
        if isinstance(x, Polygon):
            x.subs.append(None)
        if x._geotype == "Multipoint" and len(x):
            x[0] = Point((555.0,) * len(x._vertices[0]), crs=x.crs)
        if x._geotype.startswith("Multi") and len(x):
            x.data.setfield("spoilt", [0] * len(x))
        if x._geotype == "Line" and len(x):
            x.extend(Line(np.asarray(x.vertices()) + 1.0, crs=x.crs))
        return True
    if isinstance(x, Table):
        x.setfield("spoilt", [0] * len(x))
        return True
    if isinstance(x, dict):
        for v in list(x.values()):
            done |= spoil(v, rng, depth + 1)
        x["spoilt"] = 1
        return True
    if isinstance(x, (list, tuple)):
        for v in x:
            done |= spoil(v, rng, depth + 1)
        if isinstance(x, list):
            x.append(77)
            x[0] = 78
            done = True
        return done
    if type(x).__name__ == "CoordString" and len(x):
        try:
            x[0] = np.full(len(x[0]), 77.0)
            return True
        except Exception:
            return False
    return False


LIVE = ("hole",)          # keeps the polygon it is given


@scenario(quick=300, thorough=8000, need={"spoilt": 900})
def returned(ctx):
    """changing what a question returned does not change the object that was asked"""
    rng = ctx.rng
    specs, S = world(rng)
    live = [build(s) for s in specs]
    before = [snap(g) for g in live]
    hist = []
    for _ in range(12):
        name, kinds, f = question(rng, S)
        idx = [pick(rng, specs, k) for k in kinds]
        if None in idx or name in LIVE:
            continue
        r, want = ask(f, [live[i] for i in idx])
        if any(r is live[i] for i in range(len(live))):
            continue
        hist.append((name, tuple(idx)))
        if spoil(r, rng):
            ctx.event("spoilt")
            for i in set(idx):
                same(ctx, snap(live[i]), before[i], "changing the result of %s changed the %s" % (name, specs[i]["kind"]), history=hist)
            _, again = ask(f, [live[i] for i in idx])
            same(ctx, again, want, "changing the result of %s changed the next answer" % name, history=hist)
    ctx.note(history=hist)
    ctx.distinct(tuple(hist))


@scenario(quick=300, thorough=6000, need={"given": 250})
def given(ctx):
    """objects are independent of the lists, arrays and dictionaries they are made from"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    s = spec(rng, kind, Cartesian)
    how = rng.choice(["list", "array", "points", "object"])
    xy = copy.deepcopy(s["xy"])
    props = dict(s["props"])
    data = copy.deepcopy(s["data"])
    if how == "array":
        conv = lambda q: [conv(a) for a in q] if isinstance(q[0], list) else np.array(q)
        xy = np.array(xy) if kind == "Point" else conv(xy)
    elif how == "list" and kind == "Point":
        xy = list(xy)
    elif how == "points" and kind in ("Line", "Polygon", "Multipoint"):
        xy = [Point(p) for p in xy]
    elif how == "object" and kind.startswith("Multi") and (kind != "Multipolygon" or s["data"]):
        # (polygons without data: known finding KF-multipolygon-without-data of C22)
        sub = dict(Multipoint=Point, Multiline=Line)
        if kind == "Multipolygon":
            xy = [Polygon(p[0], subs=[Polygon(q) for q in p[1:]]) for p in xy]
        else:
            xy = [sub[kind](p) for p in xy]
    k = dict(properties=props)
    if kind == "Polygon":
        k["subs"] = [build(t) for t in s["subs"]]
    if kind.startswith("Multi"):
        k["data"] = Table(data) if data and rng.random() < 0.3 else data
    ctx.note(kind=kind, how=how, xy=repr(xy)[:400])
    ctx.distinct(kind, how, repr(s["xy"])[:200])
    keep = canon([xy, props, k.get("data"), k.get("subs")])
    g = CLS[kind](xy, **k)
    ctx.event("given")
    same(ctx, snap(g), snap(build(s)), "object made from a %s" % how)
    for _ in range(3):
        name, kinds, f = question(rng, 20.0)
        if len(kinds) == 1 and kind in kinds[0]:
            ask(f, [g])
    same(ctx, canon([xy, props, k.get("data"), k.get("subs")]), keep, "making a %s changed what it was made from" % kind)
    b = snap(g)
    g.properties["own"] = 1
    same(ctx, canon(props), canon(s["props"]), "properties are shared with the dictionary given")
    del g.properties["own"]
    subs = k.pop("subs", None)
    spoil(xy if not isinstance(xy, tuple) else list(xy), rng)
    spoil(props, rng)
    d = k.get("data")
    if d is not None:
        spoil(d, rng)
    if subs:
        subs.append(None)
    same(ctx, snap(g), b, "a %s changed with the container it was made from" % kind)


def content(g):
    """a fresh object with the content of *g*"""
    t = g._geotype
    k = dict(properties=dict(g.properties), crs=g.crs)
    if t == "Point":
        return Point(tuple(g.vertex()), **k)
    if t == "Polygon":
        return Polygon([tuple(v) for v in g.vertices()], subs=[content(q) for q in g.subs], **k)
    if t == "Line":
        return Line([tuple(v) for v in g.vertices()], **k)
    data = {f: g.data.getfield(f) for f in g.data._fields} if len(g.data._fields) else None
    if t == "Multipoint":
        return Multipoint([tuple(v) for v in g.vertices()], data=data, **k)
    if t == "Multiline":
        return Multiline([[tuple(v) for v in a] for a in g.vertices()], data=data, **k)
    return Multipolygon([[[tuple(v) for v in r] for r in p] for p in g.vertices()], data=data, **k)


@scenario(quick=300, thorough=8000, need={"edits": 500, "asked": 2500})
def edits(ctx):
    """after an edit, answers are those of an object built with the new content; relatives stay as they were"""
    rng = ctx.rng
    specs, S = world(rng, n=2)
    z = rng.random() < 0.2
    crs = specs[0]["crs"]
    specs.append(spec(rng, "Line", crs, S, z))
    specs.append(spec(rng, "Multipoint", crs, S, z))
    live = [build(s) for s in specs]
    hist = []
    rel = []             # (relative, its snapshot)
    for _ in range(4):
        for _ in range(4):
            name, kinds, f = question(rng, S)
            idx = [pick(rng, specs, k) for k in kinds]
            if None in idx:
                continue
            hist.append((name, tuple(idx)))
            want = ask(f, [content(live[i]) for i in idx])[1]
            r, got = ask(f, [live[i] for i in idx])
            ctx.event("asked")
            same(ctx, got, want, "stale answer after edits: %s" % name, history=hist)
            if isinstance(r, Geometry) and all(r is not g for g in live) and name not in LIVE:
                rel.append((name, r, snap(r)))
        i = rng.choice([len(specs) - 1, len(specs) - 2, rng.randrange(len(specs))])
        g = live[i]
        t = g._geotype
        others = [(j, snap(h)) for j, h in enumerate(live) if j != i]
        k = rng.randrange(5)
        if t == "Line" and k < 3:
            rank = len(g.vertices()[0])
            j = rng.randrange(1, 5)
            g.extend(Line(coords(rng, j, rank == 3, S), crs=crs))
            hist.append(("extend", i))
        elif t == "Multipoint" and len(g) and k < 3:
            rank = len(g.vertices()[0])
            j = rng.randrange(-len(g), len(g))
            p = coords(rng, 1, rank == 3, 3 * S)[0]
            if k == 0:
                g[j] = p
            else:
                g[j] = Point(p, properties={f: 5 for f in g.data.fields}, crs=crs)
            same(ctx, canon(g.vertices()[j].tolist()), canon(list(p)), "assigned position")
            hist.append(("setitem", i, j))
        elif t.startswith("Multi") and k == 3:
            g.data.setfield("new%d" % rng.randrange(3), list(range(len(g))))
            hist.append(("setfield", i))
        else:
            g.properties["p%d" % rng.randrange(3)] = rng.randrange(9)
            hist.append(("properties", i))
        ctx.event("edits")
        for j, b in others:
            same(ctx, snap(live[j]), b, "editing one object changed another", history=hist)
        for name, r, b in rel:
            same(ctx, snap(r), b, "editing an object changed the result of %s" % name, history=hist)
    ctx.note(history=hist)
    ctx.distinct(tuple(hist))


def tweak(rng, s):
    """a description that differs from *s* in one component: (what, description)"""
    t = copy.deepcopy({k: v for k, v in s.items() if k != "crs"})
    t["crs"] = s["crs"]
    kind = s["kind"]
    opts = ["coord", "props", "crs"]
    if kind != "Point":
        opts += ["drop", "order"]
    if kind.startswith("Multi"):
        opts += ["data", "field"]
    if kind == "Polygon":
        opts += ["hole", "holecoord"]
    if kind in ("Line", "Polygon", "Multipoint"):
        opts.append("kind")
    w = rng.choice(opts)

    def paths(q, at=()):
        if isinstance(q, tuple):
            return [at]
        return [p for i, a in enumerate(q) for p in paths(a, at + (i,))]
    if w in ("coord", "holecoord"):
        o = t
        if w == "holecoord":
            if not t["subs"]:
                return None
            o = rng.choice(t["subs"])
        if kind == "Point":
            p = list(o["xy"])
            k = rng.randrange(len(p))
            p[k] = float(np.nextafter(p[k], 1e9)) if rng.random() < 0.5 else p[k] + 1
            o["xy"] = tuple(p)
        else:
            path = rng.choice(paths(o["xy"]))
            q = o["xy"]
            for a in path[:-1]:
                q = q[a]
            p = list(q[path[-1]])
            k = rng.randrange(len(p))
            p[k] = float(np.nextafter(p[k], 1e9)) if rng.random() < 0.5 else p[k] + 1
            q[path[-1]] = tuple(p)
    elif w == "props":
        t["props"]["name"] = "other"
    elif w == "crs":
        t["crs"] = rng.choice([c for c in (LonLatWGS84, WebMercator, NSIDCNorth, LonLatNAD83) if c is not s["crs"]])
        for q in t["subs"]:
            q["crs"] = t["crs"]
    elif w == "drop":
        if len(t["xy"]) < 3 + (kind == "Polygon"):
            return None
        t["xy"] = t["xy"][:-1]
        if t["data"]:
            t["data"] = {a: b[:-1] for a, b in t["data"].items()}
    elif w == "order":
        u = t["xy"][::-1]
        if u == t["xy"]:
            return None
        t["xy"] = u
    elif w in ("data", "field"):
        if not t["data"]:
            t["data"] = {"v": list(range(len(t["xy"])))}
        elif w == "data":
            c = t["data"][rng.choice(["v", "s"])]
            c[rng.randrange(len(c))] = 99
        else:
            t["data"]["new"] = t["data"].pop("s")
    elif w == "hole":
        if t["subs"] and rng.random() < 0.5:
            t["subs"].pop()
        else:
            t["subs"].append(dict(kind="Polygon", crs=t["crs"], props={}, data=None, subs=[],
                                  xy=[tuple(p[:2]) + ((3.0,) if len(p) == 3 else ()) for p in [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 1.0, 0.0)]]
                                  if len(t["xy"][0]) == 2 else [(0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (1.0, 1.0, 1.0)]))
    elif w == "kind":
        t["kind"] = rng.choice([k for k in ("Line", "Polygon", "Multipoint") if k != kind])
        t["subs"] = []
        t["data"] = None
    return w, t


@scenario(quick=600, thorough=12000, need={"equal": 550, "different": 550, "zeros": 20})
def equality(ctx):
    """objects are equal exactly if every component is, and equal objects have equal hashes"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    s = spec(rng, kind, rng.choice([Cartesian, SphericalEarth, LonLatWGS84]))
    if rng.random() < 0.1:
        z = lambda q: tuple(0.0 * v for v in q) if isinstance(q, tuple) else [z(q[0])] + q[1:]
        s["xy"] = z(s["xy"])
    a, b = build(s), build(s)
    ctx.note(kind=kind, xy=s["xy"])
    ctx.check(bool(a == b) and bool(b == a) and not (a != b), "%s: two objects with the same content are not equal" % kind)
    ctx.eq(hash(a), hash(b), "%s: equal objects with different hashes" % kind)
    ctx.check(a in {b: 1} and len({a, b}) == 1, "%s: not found in a set" % kind)
    ctx.event("equal")
    # zeros of either sign are equal
    neg = lambda q: tuple(-v if v == 0 else v for v in q) if isinstance(q, tuple) else [neg(p) for p in q]
    n = dict(s, xy=neg(s["xy"]))
    if repr(n["xy"]) != repr(s["xy"]):
        c = build(n)
        if a == c:
            ctx.eq(hash(a), hash(c), "%s: equal objects (zeros of either sign) with different hashes" % kind)
            ctx.event("zeros")
    # asking does not make objects different
    for _ in range(2):
        name, kinds, f = question(rng, 20.0)
        if len(kinds) == 1 and kind in kinds[0]:
            ask(f, [a])
    ctx.check(bool(a == b), "%s: not equal after a question" % kind)
    for _ in range(3):
        r = tweak(rng, s)
        if r is None:
            continue
        w, t = r
        try:
            c = build(t)
        except Exception:
            continue
        ctx.note(tweak=w, to=t["xy"])
        ctx.check(not (a == c) and not (c == a) and bool(a != c), "%s: equal although different in %s" % (kind, w))
        ctx.event("different")
        ctx.distinct(kind, w, repr(s["xy"])[:100])
    for other in (None, 3, "x", [], object()):
        ctx.check(not (a == other), "%s: equal to %r" % (kind, other))


# -- grids --------------------------------------------------------------------

DT = [np.float64, np.float32, np.int32, np.uint8, np.int16]


def gspec(rng):
    ny, nx = rng.choice([1, 2, 2, 5, 5, 20, 20, 300]), rng.choice([2, 3, 7, 30])
    dt = rng.choice(DT)
    nb = rng.choice([1, 1, 1, 2, 3])
    T = (rng.uniform(-50, 50), rng.uniform(-50, 50), rng.choice([1.0, 2.0, 0.5]), rng.choice([1.0, -1.0, 3.0]), 0.0, 0.0)
    if rng.random() < 0.3:
        T = T[:4] + (0.2, -0.1)
    nodata = rng.choice([None, 7])
    v = gen.rnd_grid_values(rng, ny, nx, nb, dt, nodata=nodata, p_nodata=0.2 if nodata is not None else 0.0)
    return dict(T=T, v=np.asarray(v), nodata=nodata, band=rng.choice([SimpleBand, CompressedBand]))


def gbuild(s):
    return RegularGrid(s["T"], s["v"].copy(), nodata_value=s["nodata"], bandclass=s["band"])


def gquestion(rng, s):
    ny, nx = s["v"].shape[:2]
    T = s["T"]

    def at(i, j):
        return (T[0] + T[2] * (j + 0.5) + T[4] * (i + 0.5), T[1] + T[3] * (i + 0.5) + T[5] * (j + 0.5))
    pts = [at(rng.uniform(0, ny - 1), rng.uniform(0, nx - 1)) for _ in range(5)]
    x = np.array([p[0] for p in pts])
    y = np.array([p[1] for p in pts])
    (x0, y0), (x1, y1) = at(rng.uniform(0, ny - 1), rng.uniform(0, nx - 1)), at(rng.uniform(0, ny - 1), rng.uniform(0, nx - 1))
    bb = (min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1))
    tri = Polygon([at(-1, -1), at(ny, -1), at(ny / 2.0, nx + 2.0)])
    k = rng.randrange(ny)
    mask = np.zeros((ny, nx), dtype=bool)
    mask[::2] = True
    Q = [("getitem", lambda g: g[:, :]), ("bands", lambda g: g[:, :, :]), ("row", lambda g: g[k, :]), ("sl", lambda g: g[::2, ::-1]),
         ("mask", lambda g: g[mask]), ("values", lambda g: g.values[:, :]), ("iter", lambda g: list(g.values)), ("size", lambda g: (g.size, g.nbands)),
         ("data_mask", lambda g: g.data_mask), ("full", lambda g: g.data_mask_full), ("minmax", lambda g: g.minmax()),
         ("extent", lambda g: g.extent()), ("bbox", lambda g: g.bbox()), ("data_extent", lambda g: g.data_extent()), ("data_bbox", lambda g: g.data_bbox()),
         ("centers", lambda g: g.center_coords()), ("vertices", lambda g: g.vertex_coords()), ("coordmesh", lambda g: g.coordmesh()),
         ("transform", lambda g: (g.transform, g.origin, g.resolution, g.skew, g.center_llref(), g.corner_llref())),
         ("nearest", lambda g: g.sample_nearest(x, y)), ("bilinear", lambda g: g.sample_bilinear(x, y)),
         ("sample", lambda g: g.sample(float(x[0]), float(y[0]))), ("multi", lambda g: g.sample(Multipoint(list(zip(x, y))))),
         ("positions", lambda g: g.positions(x, y)), ("indices", lambda g: g.indices(x, y)),
         ("profile", lambda g: g.profile(Line([pts[0], pts[1]]), resolution=abs(T[2]))),
         ("copy", lambda g: g.copy()), ("clip", lambda g: g.clip(bb[0], bb[2], bb[1], bb[3])), ("resize", lambda g: g.resize(bb)),
         ("resample", lambda g: g.resample(abs(T[2]) * 2, abs(T[3]) * 2)), ("poly", lambda g: g.mask_by_poly(tri)),
         ("apply", lambda g: g.apply(lambda a: a + 1)), ("chunks", lambda g: list(g.aschunks(size=(3, 4), overlap=(1, 1)))),
         ("add", lambda g: g + g), ("sub", lambda g: g - g), ("merge", lambda g: karta.raster.grid.merge([g, g])),
         ("slope", lambda g: karta.raster.misc.slope(g)), ("aspect", lambda g: karta.raster.misc.aspect(g)),
         ("hillshade", lambda g: karta.raster.misc.hillshade(g)), ("hist", lambda g: karta.raster.misc.norm(g) if hasattr(karta.raster.misc, "norm") else None),
         ("newgrid", lambda g: RegularGrid(g.transform, values=g[:, :], crs=g.crs, nodata_value=g.nodata))]
    return rng.choice(Q), (x, y, mask, tri)


@scenario(quick=200, thorough=5000, need={"asked": 2000, "answered": 1500})
def grid_questions(ctx):
    """questions to a grid, and derived grids, leave it and their arguments as they were"""
    rng = ctx.rng
    s = gspec(rng)
    g = gbuild(s)
    b = gsnap(g)
    same(ctx, canon(g[:, :, :].reshape(s["v"].shape)), canon(s["v"]), "values of a new grid")
    hist = []
    ctx.note(T=s["T"], shape=s["v"].shape, dtype=str(s["v"].dtype), band=s["band"].__name__)
    for _ in range(10):
        (name, f), args = gquestion(rng, s)
        ka = canon(args)
        hist.append(name)
        want = ask(f, [gbuild(s)])[1]
        r, got = ask(f, [g])
        ctx.event("asked")
        if not (isinstance(want, tuple) and want[0] == "raises"):
            ctx.event("answered")
        same(ctx, got, want, "grid: answer depends on history: %s" % name, history=hist)
        same(ctx, canon(args), ka, "grid: %s changed its arguments" % name)
        same(ctx, gsnap(g), b, "grid: %s changed the grid" % name, history=hist)
        # iterating over values gives rows of the band itself, by design of the bands
        if r is not g and name != "iter" and gspoil(r):
            same(ctx, gsnap(g), b, "grid: changing the result of %s changed the grid" % name, history=hist)
            ctx.event("spoilt")
    ctx.distinct(tuple(hist), s["T"])
    s2 = dict(s, v=s["v"].copy())
    arr = s2["v"]
    g2 = RegularGrid(s2["T"], arr, nodata_value=s2["nodata"], bandclass=s2["band"])
    g2[:, :, :] = np.zeros(g2.size + (g2.nbands,), dtype=arr.dtype)
    same(ctx, canon(arr), canon(s["v"]), "grid: writing to a grid changed the array it was made from")
    g3 = RegularGrid(s2["T"], arr, nodata_value=s2["nodata"], bandclass=s2["band"])
    arr[...] = 1
    same(ctx, gsnap(g3), b, "grid: changed with the array it was made from")


def gspoil(r):
    if isinstance(r, RegularGrid):
        r[:, :, :] = np.full(r.size + (r.nbands,), 3, dtype=r.values.dtype)
        return True
    if isinstance(r, np.ndarray):
        if r.size and r.flags.writeable:
            r[...] = 1
        return True
    if isinstance(r, (list, tuple)):
        return any([gspoil(q) for q in r])
    return False


@scenario(quick=200, thorough=3000, need={"edits": 500})
def grid_edits(ctx):
    """a grid and its copies and derivatives are independent; answers follow edits"""
    rng = ctx.rng
    s = gspec(rng)
    g = gbuild(s)
    model = np.atleast_3d(s["v"]).copy()
    rel = []
    hist = []
    ny, nx, nb = model.shape
    ctx.note(T=s["T"], shape=model.shape, dtype=str(model.dtype), band=s["band"].__name__)
    for _ in range(5):
        (name, f), _a = gquestion(rng, s)
        want = ask(f, [gbuild(dict(s, v=model))])[1]
        r, got = ask(f, [g])
        hist.append(name)
        same(ctx, got, want, "grid: stale answer after edits: %s" % name, history=hist)
        if isinstance(r, (RegularGrid, np.ndarray)):
            rel.append((name, r, canon(r)))
        k = rng.randrange(3)
        i0, j0 = rng.randrange(ny), rng.randrange(nx)
        val = rng.randrange(1, 6)
        if k == 0:
            g[i0:, j0:] = val
            model[i0:, j0:, :] = val
        elif k == 1:
            m = np.zeros((ny, nx), dtype=bool)
            m[i0:, :] = True
            g[m] = val
            model[m] = val
        else:
            blk = np.full((ny - i0, nx - j0, nb), val, dtype=model.dtype)
            g[i0:, j0:, :] = blk
            model[i0:, j0:, :] = blk
            blk[...] = 99
        hist.append(("set", k, i0, j0))
        ctx.event("edits")
        same(ctx, canon(g[:, :, :]), canon(model), "grid: values after an edit", history=hist)
        for name, r, b in rel:
            same(ctx, canon(r), b, "grid: editing a grid changed the result of %s" % name, history=hist)
    ctx.distinct(tuple(hist), s["T"])


# -- threads --------------------------------------------------------------------

@scenario(quick=24, thorough=300, need={"asked": 800, "rounds": 20})
def threads(ctx):
    """questions asked from several threads at once get the answers of questions asked in turn"""
    rng = ctx.rng
    specs, S = world(rng)
    specs.append(spec(rng, "Multipoint", specs[0]["crs"], S))
    gs = gspec(rng)
    plan = []
    for _ in range(14):
        name, kinds, f = question(rng, S)
        idx = [pick(rng, specs, k) for k in kinds]
        if None in idx:
            continue
        plan.append((name, idx, f, ask(f, [build(specs[i]) for i in idx])[1]))
    gplan = []
    for _ in range(5):
        (name, f), _a = gquestion(rng, gs)
        gplan.append((name, f, ask(f, [gbuild(gs)])[1]))
    live = [build(s) for s in specs]
    g = gbuild(gs)
    wrong = []
    seen = set()
    start = threading.Barrier(4)

    def run(seed):
        import random
        r = random.Random(seed)
        jobs = [("v",) + p for p in plan] + [("g",) + p for p in gplan]
        r.shuffle(jobs)
        start.wait()
        for j in jobs:
            if j[0] == "v":
                got = ask(j[3], [live[i] for i in j[2]])[1]
            else:
                got = ask(j[2], [g])[1]
            seen.add((seed, j[1]))
            if got != j[-1]:
                wrong.append((j[1], got, j[-1]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=(ctx.index * 10 + k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.event("asked", 4 * (len(plan) + len(gplan)))
    ctx.event("rounds")
    ctx.note(questions=[p[0] for p in plan] + [p[0] for p in gplan])
    ctx.distinct(tuple(p[0] for p in plan))
    ctx.check(not wrong, "concurrent questions: a different answer", wrong=repr(wrong[:3])[:1500])
    for s, o in zip(specs, live):
        same(ctx, snap(o), snap(build(s)), "concurrent questions changed a %s" % s["kind"])
