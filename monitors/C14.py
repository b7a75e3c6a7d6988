"""C14 No input or history corrupts memory, crashes the interpreter or leaks native structures.

Runs the extension modules compiled with AddressSanitizer and UndefinedBehaviorSanitizer.
A sanitizer report or the death of a worker is the violation; the tree and kernel scenarios
also compare answers, so silent corruption is seen too."""
SANITIZE = True
import ctypes, gc, io, math, os, json
import numpy as np
from lib.mon import scenario, Skip
from lib import gen
import karta
from karta.vector.read import read_gpx_waypts, read_gpx_tracks
from karta.vector import contains as _c, convexhull as _h, intersection as _i, dateline as _d, vectorgeo as _v
from karta.vector.quadtree import QuadTree
from karta.vector.rtree import RTree
from karta.raster import crfuncs, grid as _g
from coordstring import CoordString

RULE = ("a case builds, queries and destroys native structures (quadtrees, R-trees, coordinate kernels, grid kernels, on-disk "
        "bands) over hostile input - duplicated, adjacent, huge, infinite, empty - under ASan and UBSan, compares answers with a "
        "scan, and counts live native bytes over build/destroy cycles; distinct by structure, input style and parameters")

INF = float("inf")
NAN = float("nan")


def ulp(x):
    return float(np.nextafter(x, INF))


def cloud(rng, n, style):
    if style == "spread":
        return [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n)]
    if style == "ulp":
        a, b = rng.choice([(1.0, 1.0), (0.0, 1e9), (1e300, -3.0), (0.0, 0.0)])
        xs, ys = [a], [b]
        for _ in range(rng.choice([1, 2, 3, 7])):
            xs.append(ulp(xs[-1]))
            ys.append(ulp(ys[-1]))
        return [(rng.choice(xs), rng.choice(ys)) for _ in range(n)]
    if style == "dup":
        k = max(1, n // rng.choice([2, 10, 50]))
        base = [(rng.gauss(0, 5), rng.gauss(0, 5)) for _ in range(k)]
        return [rng.choice(base) for _ in range(n)]
    if style == "line":
        return [(float(i), 3.0) for i in range(n)] if rng.random() < 0.5 else [(3.0, float(-i)) for i in range(n)]
    if style == "huge":
        return [(rng.uniform(-1.7e308, 1.7e308), rng.uniform(1e308, 1.7e308)) for _ in range(n)]
    if style == "inf":
        v = [INF, -INF, 0.0, 1.0]
        return [(rng.choice(v + [rng.gauss(0, 1)]), rng.choice([3.0, rng.gauss(0, 1), INF])) for _ in range(n)]
    if style == "tiny":
        return [(rng.randrange(-9, 9) * 5e-324, rng.randrange(-9, 9) * 5e-324) for _ in range(n)]
    if style == "gridded":
        return [(float(rng.randrange(12)), float(rng.randrange(12))) for _ in range(n)]
    if style == "cluster":
        return [(rng.choice([0, 1e6]) + rng.gauss(0, 1e-7), rng.gauss(0, 1e-7)) for _ in range(n)]
    raise ValueError(style)


STYLES = ["spread", "ulp", "dup", "line", "huge", "inf", "tiny", "gridded", "cluster"]


def box(rng, pts):
    if rng.random() < 0.1:
        return tuple(rng.choice([NAN, INF, -INF, 0.0, 1e308, -1e308]) for _ in range(4))
    (a, b), (c, d) = rng.choice(pts), rng.choice(pts)
    if rng.random() < 0.5:
        e = rng.choice([0.0, 1e-9, 1.0, 10.0])
        return (min(a, c) - e, min(b, d) - e, max(a, c) + e, max(b, d) + e)
    return (a, b, c, d)


@scenario(700, 12000, need={"built": 300, "split": 120})
def quadtree(ctx):
    """quadtrees over hostile points; each answer equals a scan"""
    rng = ctx.rng
    style = rng.choice(STYLES)
    cap = rng.choice([1, 2, 3, 4, 5, 8, 50, 50])
    n = rng.choice([1, 2, 3, cap - 1, cap, cap + 1, 20, 49, 50, 51, 52, 120, 300]) if style != "huge" else rng.choice([3, 50, 51, 120])
    n = max(n, 1)
    pts = cloud(rng, n, style)
    ctx.note(style=style, cap=cap, n=n, pts=pts[:60])
    ctx.distinct(style, cap, n, pts[0])
    mp = karta.Multipoint(pts)
    if rng.random() < 0.05 and n > 1:
        class Liar(object):
            """an index must not trust the box it is told"""
            def bbox(self):
                return (0.0, 0.0, 1.0, 1.0)

            def __len__(self):
                return n

            def __getitem__(self, i):
                return pts[i]
        src = Liar()
        ctx.event("outside_box")
    else:
        src = mp._vertices
    q = QuadTree(src, leaf_capacity=cap)
    ctx.event("built")
    if n > cap:
        ctx.event("split")
    ctx.eq(len(q), n, "quadtree: number of points")
    for _ in range(8):
        b = box(rng, pts)
        got = sorted(q.search_within(*b))
        want = [i for i, (x, y) in enumerate(pts) if b[0] < x < b[2] and b[1] < y < b[3]]
        if src is mp._vertices:
            ctx.eq(got, want, "quadtree: points within %r" % (b,))
        ctx.event("query")
    if rng.random() < 0.3:
        bad = list(pts)
        bad[rng.randrange(n)] = (NAN, 1.0)

        class P(object):
            def bbox(self):
                return (0.0, 0.0, 1.0, 1.0)

            def __len__(self):
                return n

            def __getitem__(self, i):
                return bad[i]
        ctx.raises(ValueError, lambda: QuadTree(P(), leaf_capacity=cap), "quadtree: NaN position was accepted")
        ctx.event("nan_refused")
    for c in (0, -1, -10**9):
        try:
            QuadTree(src, leaf_capacity=c)
        except (ValueError, OverflowError, MemoryError):
            ctx.event("capacity_refused")
    del q
    if rng.random() < 0.2:
        gc.collect()


class Boxed(object):
    def __init__(self, b):
        self.b = b

    def bbox(self):
        return self.b


@scenario(700, 12000, need={"built": 300, "split": 120})
def rtree(ctx):
    """R-trees over hostile boxes; each answer equals a scan"""
    rng = ctx.rng
    style = rng.choice(STYLES)
    mc = rng.choice([4, 4, 5, 6, 10, 50, 50])
    n = rng.choice([0, 1, 2, mc, mc + 1, mc + 2, 30, 51, 52, 130, 400])
    pts = cloud(rng, max(n, 1), style)
    boxes = []
    for i in range(n):
        x, y = pts[i]
        w, h = rng.choice([(0, 0), (1, 1), (0, 5), (1e-9, 1e-9), (1e3, 0), (1e300, 1)])
        boxes.append((x, y, x + w, y + h))
    withnan = rng.random() < 0.1 and n
    if withnan:
        boxes[rng.randrange(n)] = (NAN,) * 4
    if rng.random() < 0.1:
        boxes = [(b[0], b[1], -1.0, b[2], b[3], 7.0) for b in boxes]
    ctx.note(style=style, maxchildren=mc, n=n, boxes=boxes[:60])
    ctx.distinct(style, mc, n, boxes[0] if n else None)
    t = RTree([Boxed(b) for b in boxes], maxchildren=mc)
    ctx.event("built")
    if n > mc:
        ctx.event("split")
    boxes = [(b[0], b[1], b[len(b) // 2], b[len(b) // 2 + 1]) for b in boxes]
    t.bbox
    for _ in range(8):
        q = box(rng, pts)
        ov = sorted(t.search_overlapping(q))
        wi = sorted(t.search_within(q))
        if not withnan:
            ctx.eq(ov, [i for i, b in enumerate(boxes) if b[0] <= q[2] and b[2] >= q[0] and b[1] <= q[3] and b[3] >= q[1]],
                   "R-tree: boxes overlapping %r" % (q,))
            ctx.eq(wi, [i for i, b in enumerate(boxes) if b[0] > q[0] and b[2] <= q[2] and b[1] > q[1] and b[3] <= q[3]],
                   "R-tree: boxes within %r" % (q,))
        m = rng.choice([0, 1, 2, 7])
        ctx.check(len(t.search_overlapping(q, m)) == min(m, len(ov)), "R-tree: limited number of results")
        ctx.event("query")
    for c in (0, -1, 3):
        try:
            RTree([Boxed(b) for b in boxes[:3]], maxchildren=c)
        except (ValueError, OverflowError, MemoryError):
            ctx.event("refused")
    try:
        RTree([Boxed(b) for b in boxes[:5]] + [None])
    except AttributeError:
        ctx.event("refused")
    del t
    if rng.random() < 0.2:
        gc.collect()


def coords(rng, n=None, rank=None):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 10, 60]) if n is None else n
    pts = cloud(rng, n, rng.choice(STYLES)) if n else []
    if (rank or rng.choice([2, 2, 3])) == 3:
        pts = [(x, y, 1.0) for x, y in pts]
    return pts


@scenario(1500, 20000, need={"answered": 3000})
def kernels(ctx):
    """every native kernel accepts or refuses any coordinate string, including empty ones"""
    rng = ctx.rng
    ring = rng.random() < 0.5
    A, B = coords(rng), coords(rng)
    ctx.note(A=A, B=B, ring=ring)
    ctx.distinct(len(A), len(B), ring, A[:1], B[:1])
    a = CoordString(A, ring=ring)
    b = CoordString(B, ring=rng.random() < 0.5)
    x, y = rng.choice(A or [(0.0, 0.0)])[:2]
    crs = karta.crs.SphericalEarth

    def hull_ok(f, cs, n):
        r = f(cs)
        ctx.check(all(0 <= k < n + (1 if cs is a and ring else 0) for k in r), "%s: index out of range" % f.__name__, got=r)
        return r
    calls = [
        ("contains", lambda: _c.contains(x, y, a)), ("contains0", lambda: _c.contains(x, y, a, False)),
        ("hull", lambda: hull_ok(_h.convexhull, a, len(A))), ("hull_sph", lambda: hull_ok(_h.convexhull_sph, a, len(A))),
        ("length", lambda: _v.length(a)), ("bbox", lambda: _v.bbox(a)), ("dateline_bbox", lambda: _d.bbox(a)),
        ("all_intersections", lambda: _i.all_intersections(a, b)), ("intersects", lambda: _i.intersects(a, b)),
        ("intersects_sph", lambda: _i.intersects_sph(a, b)), ("count_crossings", lambda: _i.count_crossings(x, y, a)),
        ("none", lambda: _c.contains(x, y, None)), ("none", lambda: _h.convexhull(None)), ("none", lambda: _v.length(None)),
        ("none", lambda: _i.intersects(None, a)), ("none", lambda: _d.bbox(None)),
        ("nearest", lambda: _v.pt_nearest_planar(x, y, 0.0, 0.0, y, x)),
        ("nearest_proj", lambda: _v.pt_nearest_proj(crs.forward, crs.inverse, (1.0, 2.0),
                                                    np.array([rng.uniform(-9, 9)] * rng.choice([0, 1, 2])),
                                                    np.array([rng.uniform(-9, 9), 3.0][:rng.choice([0, 1, 2])]))),
        ("segment", lambda: _i.intersection(x, y, y, x, x, x, y, y)), ("crosses", lambda: _d.crosses_dateline(x, y)),
        ("bboxes", lambda: _i.bboxes_overlap((0, 0, 1), (1,))),
    ]
    if len(A) <= 4:
        calls.append(("contains_proj", lambda: _c.contains_proj(x, y, a, crs)))
    for nm, f in calls:
        try:
            f()
            ctx.event("answered")
        except (TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, AttributeError, _v.ConvergenceError):
            ctx.event("refused")
    # the coordinates themselves are as they were
    ctx.eq([tuple(p) for p in a.vectors()] if False else len(a), len(A), "kernels: coordinates changed")


def weird_array(rng, n, dtype=np.float64):
    v = np.array([rng.choice([0.0, 0.5, 1.0, -0.5, -1.0, NAN, INF, -INF, 1e9, -1e9, 2.0 ** 31, -2.0 ** 31, 1e300,
                              rng.uniform(-3, 12), float(rng.randrange(-2, 12))]) for _ in range(n)])
    k = rng.random()
    if k < 0.1:
        v = np.repeat(v, 2)[::2]
    elif k < 0.2:
        v = v[::-1]
    return v


@scenario(1500, 20000, need={"answered": 1000, "inside": 200})
def grid_kernels(ctx):
    """sampling, positions and point gridding kernels with any indices"""
    rng = ctx.rng
    ny, nx = rng.choice([0, 1, 2, 5, 9]), rng.choice([0, 1, 2, 5, 9])
    n = rng.choice([0, 1, 5, 40])
    I, J = weird_array(rng, n), weird_array(rng, n + rng.choice([0, 0, 0, 0, -1, 3]) if n else 0)
    ctx.note(ny=ny, nx=nx, I=I.tolist(), J=J.tolist())
    ctx.distinct(ny, nx, n, I.tolist()[:4], J.tolist()[:4])
    for f, dt, na in ((crfuncs.sample_bilinear_double, np.float64, NAN), (crfuncs.sample_bilinear_int, np.int64, -99),
                      (crfuncs.sample_bilinear_uint, np.uint32, 99)):
        Z = (np.arange(ny * nx).reshape(ny, nx) * 3 + 1).astype(dt)
        k = rng.random()
        if k < 0.15:
            Z = np.asfortranarray(Z)
        elif k < 0.3:
            Z = np.repeat(Z, 2, axis=1)[:, ::2]
        elif k < 0.35:
            Z = Z[:, 0] if nx else Z
        elif k < 0.4:
            Z = Z.astype(np.float32)
        elif k < 0.43:
            Z = None
        try:
            out = f(I, J, Z, na)
        except (TypeError, ValueError, IndexError, OverflowError):
            ctx.event("refused")
            continue
        ctx.event("answered")
        ctx.eq(len(out), len(I), "bilinear: length")
        for i, j, o in zip(I.tolist(), J.tolist(), out.tolist()):
            if 0 <= i <= ny - 1 and 0 <= j <= nx - 1 and ny > 1 and nx > 1:
                want = 3 * (i * nx + j) + 1
                ctx.check(abs(o - want) <= (1e-9 if dt is np.float64 else 1.000001), "bilinear: value of a plane at %r, %r" % (i, j), got=o, want=want)
                ctx.event("inside")
            elif not (-1 <= i <= ny and -1 <= j <= nx):
                ctx.check(o == na or (o != o and na != na), "bilinear: value outside of the grid", got=o, at=(i, j))
    A = np.zeros((ny, nx))
    m = n
    II = np.array([rng.choice([0, ny - 1, rng.randrange(ny) if ny else 0] + ([ny, -1, -ny, 2 ** 31 - 1, -2 ** 31] if rng.random() < 0.1 else [])) for _ in range(m)], dtype=np.int32)
    JJ = np.array([rng.choice([0, nx - 1, rng.randrange(nx) if nx else 0] + ([nx, -1, -nx, 2 ** 31 - 1, -2 ** 31] if rng.random() < 0.1 else [])) for _ in range(m)], dtype=np.int32)
    Z = np.arange(1.0, m + 1)
    ctx.note(II=II.tolist(), JJ=JJ.tolist())
    try:
        r = crfuncs.fillarray_double(A, II, JJ, Z, -5.0)
    except (IndexError, ValueError, TypeError):
        ctx.event("refused")
    else:
        ctx.event("answered")
        if r == 0:
            ctx.check(all(0 <= i < ny for i in II) and all(0 <= j < nx for j in JJ), "fillarray: wrote outside of the array")
    T = tuple(rng.choice([0.0, 1.0, -1.0, NAN, INF, 1e300, 3.0]) for _ in range(rng.choice([6, 6, 6, 5, 0])))
    try:
        crfuncs.get_positions_vec(T, I, J)
        ctx.event("answered")
    except (IndexError, ValueError, TypeError, ZeroDivisionError):
        ctx.event("refused")


def attempt(ctx, f, *a, **k):
    """any ordinary Python exception is an answer as far as memory safety is concerned"""
    try:
        r = f(*a, **k)
        ctx.event("answered")
        return r
    except Exception:
        ctx.event("refused")


@scenario(400, 6000, need={"answered": 600})
def geometries(ctx):
    """public geometry operations over degenerate geometry end with an answer or an ordinary error"""
    rng = ctx.rng
    crs = rng.choice([karta.crs.Cartesian, karta.crs.Cartesian, karta.crs.Cartesian, karta.crs.SphericalEarth])
    K = dict(crs=crs)
    line = attempt(ctx, karta.Line, coords(rng, rank=2), **K) or karta.Line([(0, 0), (1, 1)], **K)
    line2 = attempt(ctx, karta.Line, coords(rng, rng.choice([0, 1, 2, 5]), rank=2), **K) or line
    poly = attempt(ctx, karta.Polygon, coords(rng, rng.choice([0, 1, 2, 3, 9]), rank=2), **K) or karta.Polygon([(0, 0), (1, 0), (1, 1)], **K)
    big = rng.choice([0, 1, 3, 60])
    mp = attempt(ctx, karta.Multipoint, coords(rng, big, rank=2), **K) or karta.Multipoint([(0, 0)], **K)
    ml = attempt(ctx, karta.Multiline, [coords(rng, rng.choice([0, 1, 2, 3]), rank=2) for _ in range(big)], **K) or karta.Multiline([[(0, 0), (1, 2)]], **K)
    mg = attempt(ctx, karta.Multipolygon, [[coords(rng, rng.choice([0, 1, 3, 4]), rank=2)] for _ in range(big)], **K) or karta.Multipolygon([[[(0, 0), (1, 2), (3, 0)]]], **K)
    pt = karta.Point(rng.choice([(0, 0), (1.5, 2.5), (1e300, 3), (INF, 0)]), **K)
    ctx.note(crs=str(crs)[:40], line=len(line), poly=len(poly), mp=len(mp), ml=len(ml), mg=len(mg))
    ctx.distinct(len(line), len(poly), len(mp), len(ml), len(mg), repr(pt.vertex), ctx.rng.random())
    b = box(rng, [(0.0, 0.0), (1.0, 3.0)])
    ops = [
        lambda: line.length, lambda: line.bbox(), lambda: line.convex_hull(), lambda: line.intersects(line2),
        lambda: line.intersections(line2), lambda: line.to_npoints(rng.choice([1, 2, 5])), lambda: line[-1], lambda: line[0:2],
        lambda: line[::-1], lambda: line.within_distance(pt, 3), lambda: line.nearest_vertex_to(pt), lambda: line.shift((1, 2)),
        lambda: poly.bbox(), lambda: poly.area, lambda: poly.centroid, lambda: poly.contains(pt), lambda: poly.convex_hull(),
        lambda: poly.perimeter, lambda: poly.isclockwise(), lambda: poly.rotate(30), lambda: poly.to_line(),
        lambda: mp.within_bbox(b), lambda: mp.within_polygon(poly), lambda: mp.within_radius(pt, 5), lambda: mp.nearest_vertex_to(pt),
        lambda: mp.convex_hull(), lambda: mp[3:1], lambda: mp[-1], lambda: mp[10 ** 9], lambda: mp.bbox(),
        lambda: ml.within_bbox(b), lambda: ml.touching_bbox(b), lambda: ml.touching(line), lambda: ml.within(poly), lambda: ml[0],
        lambda: ml.bbox(), lambda: mg.within_bbox(b), lambda: mg.touching_bbox(b), lambda: mg.touching(poly), lambda: mg.within(poly),
        lambda: mg.bbox(), lambda: mg[-1], lambda: list(mp), lambda: list(ml), lambda: list(mg),
    ]
    if crs is karta.crs.Cartesian:
        ops += [lambda: line.shortest_distance_to(pt), lambda: line.nearest_on_boundary(pt), lambda: poly.nearest_on_boundary(pt),
                lambda: poly.shortest_distance_to(pt)]
    for k in rng.sample(range(len(ops)), 16):
        attempt(ctx, ops[k])


@scenario(300, 5000, need={"answered": 500})
def grids(ctx):
    """public grid operations with hostile arguments"""
    rng = ctx.rng
    ny, nx = rng.choice([1, 2, 3, 9, 40]), rng.choice([1, 2, 3, 9, 40])
    T = tuple([rng.choice([0.0, -5.0, 1e6]), rng.choice([0.0, 7.0])] + [rng.choice([1.0, -1.0, 0.5, 1e-9, 1e9]) for _ in range(2)]
              + [rng.choice([0.0, 0.0, 0.3, -0.3]), rng.choice([0.0, 0.0, 0.2])])
    if not (0.4 < abs(T[2]) < 2 and 0.4 < abs(T[3]) < 2):
        T = T[:4] + (0.0, 0.0)
    dt = rng.choice([np.float64, np.float32, np.int32, np.uint8, np.int16, np.int64, np.uint32])
    v = (np.arange(ny * nx).reshape(ny, nx) % 50).astype(dt)
    nb = rng.choice([1, 1, 3])
    if nb > 1:
        v = np.dstack([v] * nb)
    g = attempt(ctx, karta.RegularGrid, T, v, bandclass=rng.choice([karta.raster.band.SimpleBand, karta.raster.band.CompressedBand]),
                nodata_value=rng.choice([None, 0, 3]))
    if g is None:
        raise Skip
    ctx.note(T=T, ny=ny, nx=nx, dt=str(dt), nb=nb)
    ctx.distinct(T, ny, nx, str(dt), nb, rng.random())

    def num():
        return rng.choice([NAN, INF, -INF, 0.0, 1e308, rng.uniform(-50, 50), T[0] + 0.5 * T[2]])

    def i():
        return rng.choice([None, 0, 1, -1, 2, nx, ny, -ny, 10 ** 6, -10 ** 6])
    sl = lambda: slice(i(), i(), rng.choice([None, 1, -1, 2, -3]))
    V = lambda n: np.array([num() for _ in range(n)])
    star = karta.Polygon([(T[0], T[1]), (T[0] + 3 * T[2], T[1]), (T[0] + T[2], T[1] + 5 * T[3])])
    ops = [
        lambda: g[sl(), sl()], lambda: g[i(), i()], lambda: g[sl(), sl(), sl()], lambda: g[:, :, 7], lambda: g.values,
        lambda: g.sample(num(), num()), lambda: g.sample_nearest(V(4), V(4)), lambda: g.sample_bilinear(V(4), V(4)),
        lambda: g.sample_bilinear(V(3), V(4)), lambda: g.sample_nearest(V(2).reshape(1, 2), V(2).reshape(2, 1)),
        lambda: g.positions(num(), num()), lambda: g.indices(num(), num()), lambda: g.positions(V(3), V(3)),
        lambda: g.mask_by_poly(star), lambda: g.mask_by_poly([star, karta.Polygon([])]),
        lambda: g.resample(abs(T[2]) * rng.choice([0.5, 1, 3]), abs(T[3]) * rng.choice([0.5, 2, 100])),
        lambda: g.clip(T[0], T[0] + 3 * T[2], T[1], T[1] + 2 * T[3]), lambda: g.clip(num(), num(), num(), num()),
        lambda: g.aschunks(size=(rng.choice([-1, 1, 7]), 4), overlap=(rng.choice([0, 1]), 0)).__next__(),
        lambda: g.extent(), lambda: g.data_extent(), lambda: g.data_mask, lambda: g.minmax(), lambda: g.center_coords(),
        lambda: g.profile(karta.Line([(T[0], T[1]), (T[0] + 2 * T[2], T[1] + 2 * T[3])]), resolution=0.3 * max(abs(T[2]), abs(T[3]))),
        lambda: g.resize((T[0], T[1], T[0] + 3 * abs(T[2]), T[1] + 2 * abs(T[3]))), lambda: g.copy() + g, lambda: g.apply(np.sqrt),
        lambda: g.__setitem__((sl(), sl()), 3), lambda: g.__setitem__((i(), i()), 3),
    ]
    if abs(T[2]) == 1.0:
        ops += [lambda: _g.gridpoints(V(6), V(6), V(6), T, karta.crs.Cartesian),
                lambda: _g.gridpoints(np.array([T[0], T[0] + 2 * T[2]]), np.array([T[1], T[1] + T[3]]), np.array([1.0, 2.0]), T, karta.crs.Cartesian)]
    for k in rng.sample(range(len(ops)), 14):
        attempt(ctx, ops[k])


@scenario(100, 1500, need={"answered": 200, "collected": 60})
def on_disk(ctx):
    """bands of grids on disk outlive the grids, files and datasets they came from"""
    rng = ctx.rng
    ny, nx = rng.choice([1, 3, 60, 200]), rng.choice([1, 5, 70])
    nb = rng.choice([1, 1, 2])
    v = np.arange(ny * nx * nb, dtype=np.float64).reshape(nb, ny, nx)
    v = np.dstack(list(v)) if nb > 1 else v[0]
    g0 = karta.RegularGrid((0, 0, 1, -1, 0, 0), v, nodata_value=-1.0)
    fnm = os.path.join(ctx.tmp, "d%d.tif" % ctx.index)
    g0.to_geotiff(fnm, compress=None)
    want = g0[:, :]
    ctx.note(ny=ny, nx=nx, nb=nb)
    ctx.distinct(ny, nx, nb, rng.random())
    g = karta.read_geotiff(fnm, in_memory=False)
    held = []
    for _ in range(12):
        k = rng.randrange(9)
        if k == 0:
            held.append(g.bands[0])
        elif k == 1:
            held.append(g[:, :])
        elif k == 2:
            held.append(iter(g.bands[0]))
        elif k == 3:
            h = attempt(ctx, g.copy)
            if h is not None:
                held.append(h)
                g = rng.choice([g, h])
        elif k == 4:
            g = karta.read_geotiff(fnm, in_memory=False)
            gc.collect()
            ctx.event("collected")
        elif k == 5:
            a, b = rng.randrange(ny + 1), rng.randrange(nx + 1)
            got = attempt(ctx, lambda: g[a:, b:])
            if got is not None:
                ctx.arr_eq(got, want[a:, b:], "grid on disk: values")
        elif k == 6:
            attempt(ctx, g.sample_nearest, 0.5, -0.5)
        elif k == 7 and held:
            o = held.pop(rng.randrange(len(held)))
            if hasattr(o, "nbands"):
                ctx.arr_eq(o[:, :], want, "grid on disk: values of a copy")
            elif hasattr(o, "getblock"):
                ctx.arr_eq(np.asarray(o.getblock(0, 0, ny, nx)).reshape(ny, nx), want[:, :, 0] if want.ndim == 3 else want, "grid on disk: values of a band")
            elif hasattr(o, "__next__"):
                attempt(ctx, lambda: next(o))
            ctx.event("outlived")
        else:
            held = held[len(held) // 2:]
            gc.collect()
            ctx.event("collected")
    g = None
    gc.collect()
    for o in held:
        if hasattr(o, "getblock"):
            ctx.arr_eq(np.asarray(o.getblock(0, 0, ny, nx)).reshape(ny, nx), want[:, :, 0] if want.ndim == 3 else want, "grid on disk: values of a band whose grid is gone")
            ctx.event("outlived")
    os.remove(fnm)


def live_bytes():
    f = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes", None)
    if f is None:
        return None
    f.restype = ctypes.c_size_t
    return f()


LEAKS = ["quadtree", "quadtree_dup", "rtree", "multipoint", "multiline", "search_q", "search_r", "refused", "refused_r",
         "nothing_q", "nothing_r", "few", "kernels", "grids", "wrong"]


@scenario(45, 225, need={"cycles": 100})
def leaks(ctx):
    """native memory in use does not grow with building, querying and dropping structures"""
    rng = ctx.rng
    what = LEAKS[ctx.index % len(LEAKS)]
    n = rng.choice([300, 700, 1500])
    pts = cloud(rng, n, rng.choice(["spread", "gridded", "cluster"]))
    if what == "quadtree_dup":
        pts = cloud(rng, n, "dup")
    mp = karta.Multipoint(pts)
    boxes = [Boxed((x, y, x + 1, y + 1)) for x, y in pts]
    cap = rng.choice([5, 20, 50])
    q = QuadTree(mp._vertices, leaf_capacity=cap)
    t = RTree(boxes, maxchildren=max(4, cap))
    ctx.note(what=what, n=n, cap=cap)
    ctx.distinct(what, n, cap)

    class Bad(object):
        def bbox(self):
            return mp.bbox()

        def __len__(self):
            return n

        def __getitem__(self, i):
            return pts[i] if i < n - 1 else (NAN, NAN)

    def once():
        if what.startswith("quadtree"):
            o = QuadTree(mp._vertices, leaf_capacity=cap)
            o.search_within(0, 0, 50, 50)
        elif what == "rtree":
            o = RTree(boxes, maxchildren=max(4, cap))
            o.search_overlapping((0, 0, 50, 50))
        elif what == "multipoint":
            o = karta.Multipoint(pts)
            o.within_bbox((0, 0, 50, 50))
        elif what == "multiline":
            o = karta.Multiline([[(x, y), (x + 1, y + 1)] for x, y in pts[:300]])
            o.touching_bbox((0, 0, 50, 50))
        elif what == "search_q":
            for _ in range(20):
                q.search_within(-INF, -INF, INF, INF)
        elif what == "search_r":
            for _ in range(20):
                t.search_overlapping((-1e9, -1e9, 1e9, 1e9))
                t.search_within((-1e9, -1e9, 1e9, 1e9))
        elif what == "refused":
            try:
                QuadTree(Bad(), leaf_capacity=cap)
            except ValueError:
                pass
        elif what == "refused_r":
            for b in (None, Boxed(("a", 0, 1, 1)), Boxed(())):
                try:
                    RTree(boxes[:100] + [b], maxchildren=max(4, cap))
                except (AttributeError, TypeError, ValueError, IndexError):
                    pass
        elif what == "nothing_q":
            for _ in range(20):
                q.search_within(-1e9, -1e9, -9e8, -9e8)
                q.search_within(1.0, 1.0, 1.0, 1.0)
        elif what == "nothing_r":
            for _ in range(20):
                t.search_overlapping((-1e9, -1e9, -9e8, -9e8))
                t.search_within((-1e9, -1e9, -9e8, -9e8))
        elif what == "few":
            x, y = pts[0]
            for _ in range(20):
                q.search_within(x - 1, y - 1, x + 1, y + 1)
                t.search_overlapping((x - 1, y - 1, x + 1, y + 1), max_results=2)
                t.search_within((x - 9, y - 9, x + 9, y + 9), max_results=2)
        elif what == "kernels":
            _h.convexhull(mp._vertices)
            try:
                _h.convexhull_sph(mp._vertices)
            except ValueError:
                pass
            pol.contains(pnt)
            pol.intersects(lin)
            lin.intersections(pol)
            lin.shortest_distance_to(pnt)
        elif what == "grids":
            grd.sample(*smp)
            grd.sample(*smp, method="nearest")
            karta.raster.gridpoints(smp[0], smp[1], smp[0], (0.0, 0.0, 1.0, 1.0, 0.0, 0.0), karta.crs.Cartesian)
            grd.mask_by_poly(pol)
        else:
            for args in (("a", 0, 1, 1), (0, 0, 1), (None, 0, 0, 0)):
                for f in (lambda: q.search_within(*args), lambda: t.search_within(args), lambda: t.search_overlapping(args)):
                    try:
                        f()
                    except (TypeError, ValueError, IndexError):
                        pass

    pol = karta.Polygon([(1, 1), (9, 2), (7, 8), (3, 6)])
    lin = karta.Line([(0, 5), (6, 7), (9, 9), (2, 3)])
    pnt = karta.Point((5, 4))
    grd = karta.RegularGrid((0, 0, 1, 1, 0, 0), values=np.arange(144.0).reshape(12, 12))
    smp = (np.array([1.2, 5.0, 8.7, 30.0]), np.array([2.2, 5.0, 11.4, 3.0]))

    def settle():
        for _ in range(3):
            gc.collect()
        return live_bytes()
    per, rounds = 12, 6
    for _ in range(per):
        once()
    base = settle()
    if base is None:
        raise Skip
    marks = [base]
    for r in range(rounds):
        for _ in range(per):
            once()
            ctx.event("cycles")
        marks.append(settle())
    # one small block per cycle that is not released shows in every round
    grow = [b - a for a, b in zip(marks, marks[1:])]
    ctx.note(growth=grow)
    limit = per * 16
    ctx.check(min(grow[1:]) < limit, "native memory grows with every cycle of %s" % what, growth=grow, limit=limit)


TEXTS = {
    "aai": "ncols 4\nnrows 3\nxllcorner 0\nyllcorner 0\ncellsize 1\nnodata_value -9999\n1 2 3 4\n5 6 7 8\n9 10 11 -9999\n",
    "geojson": json.dumps({"type": "FeatureCollection", "features": [
        {"type": "Feature", "id": 0, "properties": {"a": 1}, "geometry": {"type": "Polygon", "coordinates": [[[0, 0], [1, 0], [1, 1], [0, 0]]]}},
        {"type": "Feature", "id": 1, "properties": {"a": 2}, "geometry": {"type": "Point", "coordinates": [0, 1]}}]}),
    "gpx": "<?xml version='1.0'?><gpx version='1.1' creator='x' xmlns='http://www.topografix.com/GPX/1/1'><wpt lon='1' lat='2'>"
           "<ele>3</ele></wpt><trk><name>t</name><trkseg><trkpt lon='1' lat='2'/><trkpt lon='2' lat='2'/></trkseg></trk></gpx>",
}


@scenario(200, 3000, need={"answered": 30})
def files(ctx):
    """damaged files end in an answer or an ordinary error"""
    rng = ctx.rng
    kind = rng.choice(["aai", "geojson", "gpx", "shp", "tif"])
    p = os.path.join(ctx.tmp, "f%d" % ctx.index)
    paths = []
    if kind in TEXTS:
        s = bytearray(TEXTS[kind].encode())
        fnm = p + "." + kind
        with open(fnm, "wb") as fh:
            fh.write(bytes(s))
        victim = fnm
        paths = [fnm]
    elif kind == "shp":
        karta.Multiline([[(0, 0), (1, 1)], [(2, 2), (3, 4), (5, 5)]], data={"a": [1, 2]},
                        crs=karta.crs.LonLatWGS84).to_shapefile(p)
        fnm = p
        paths = [p + e for e in (".shp", ".shx", ".dbf", ".prj") if os.path.exists(p + e)]
        victim = rng.choice(paths)
    else:
        fnm = p + ".tif"
        karta.RegularGrid((0, 0, 1, -1, 0, 0), np.arange(400.0).reshape(20, 20)).to_geotiff(fnm, compress=rng.choice([None, "LZW"]))
        victim = fnm
        paths = [fnm]
    s = bytearray(open(victim, "rb").read())
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        k = rng.randrange(4)
        if k == 0 and len(s):
            del s[rng.randrange(len(s)):]
        elif k == 1 and len(s) and kind != "tif":
            s[rng.randrange(len(s))] = rng.randrange(256)
        elif k == 2 and len(s):
            a = rng.randrange(len(s))
            del s[a:a + rng.choice([1, 4, 30])]
        elif kind != "tif" and len(s):
            a = rng.randrange(len(s))
            s[a:a] = rng.choice([b"9" * 3, b"-", b"nan ", b"\x00", b"\n\n", b"1e999 ", b"<", b"[", b"}"])
    with open(victim, "wb") as fh:
        fh.write(bytes(s))
    ctx.note(kind=kind, victim=os.path.basename(victim), content=repr(bytes(s[:400])))
    ctx.distinct(kind, bytes(s))
    rd = {"aai": karta.read_aai, "geojson": karta.read_geojson, "gpx": lambda f: (read_gpx_tracks(f), read_gpx_waypts(f)), "shp": karta.read_shapefile,
          "tif": lambda f: karta.read_geotiff(f, in_memory=rng.random() < 0.5)[:, :]}[kind]
    if kind == "aai" and not sane_aai(bytes(s)):
        for q in paths:
            os.remove(q)
        raise Skip
    try:
        rd(fnm)
        ctx.event("answered")
    except Exception:
        ctx.event("refused")
    for q in paths + [p + e for e in (".shp", ".shx", ".dbf", ".prj")]:
        if os.path.exists(q):
            os.remove(q)


def sane_aai(b):
    """leave out headers that ask for an enormous grid"""
    for w in b.replace(b"\n", b" ").split():
        try:
            if abs(float(w)) > 5000 and w != b"-9999":
                return False
        except ValueError:
            pass
    return True
