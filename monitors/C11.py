"""C11 raster files: GeoTIFFs and ASCII grids written are complete and read back the same grid; grids on disk act like grids in memory."""
import warnings
import gc, io, os
import numpy as np
from osgeo import gdal
from lib.mon import scenario, Skip
from lib import gen
from karta import RegularGrid, read_geotiff, read_aai, from_geotiffs, Point, Polygon, Line
from karta import crs as K
from karta.errors import GridError
from karta.raster.grid import merge
from karta.raster.band import SimpleBand, CompressedBand

gdal.UseExceptions()
RULE = ("a case is a grid - of any georeferencing, coordinate system, data type, number of bands, nodata value and storage - written to a "
        "file and read back in memory or from disk, a file made by GDAL or by hand, or a history of operations on a grid on disk; distinct by contents")
DT = [np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.int64, np.uint64, np.float32, np.float64, np.complex64]
CRS = [K.Cartesian, K.Cartesian, K.LonLatWGS84, K.LonLatNAD27, K.LonLatNAD83, K.GeographicalCRS("+a=3396190 +f=0.005886007", "Mars", datum=""),
       K.GeographicalCRS("+a=1737400 +b=1737400", "Moon", datum="")] + [c for c, _, _ in gen.PROJECTED] + [K.UPSNorth, K.UPSSouth]
POTSDAM = "+ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7"
SHIFTED = [K.GeographicalCRS("+ellps=bessel", "Potsdam", datum=POTSDAM.split()[1]), K.GeographicalCRS("+ellps=clrk66", "shifted", datum="+towgs84=-8,160,176"),
           K.ProjectedCRS("+proj=tmerc +lat_0=0 +lon_0=9 +k=1 +x_0=3500000 +y_0=0 " + POTSDAM), K.ProjectedCRS("+proj=utm +zone=31 +ellps=intl +towgs84=-87,-98,-121", name="ED50")]
CRS += SHIFTED


def values(rng, ny, nx, nb, dt):
    npr = np.random.RandomState(rng.randrange(2 ** 31))
    k = np.dtype(dt).kind
    if k == "f": v = npr.normal(size=(ny, nx, nb)) * rng.choice([1, 1e-6, 1e9])
    elif k == "c": v = npr.normal(size=(ny, nx, nb)) + 1j * npr.normal(size=(ny, nx, nb))
    else:
        i = np.iinfo(dt)
        lo, hi = (i.min + 1, i.max - 1) if rng.random() < 0.5 else (0, 100)
        v = np.array([rng.randrange(lo, hi + 1) for _ in range(min(500, ny * nx * nb))], dtype=dt)
        return np.resize(v, (ny, nx, nb))
    return v.astype(dt)


def size(rng):
    if rng.random() < 0.06: return rng.choice([(1, 1), (1, 5), (7, 1), (1, 300), (260, 3)])
    if rng.random() < 0.06: return rng.choice([(300, 290), (513, 257), (64, 700)])
    return rng.randrange(1, 40), rng.randrange(1, 40)


def mk(rng, T=None, nb=None, dts=DT, crs=None, sz=None):
    ny, nx = sz or size(rng)
    nb = nb or rng.choice([1, 1, 2, 3, 4, 6])
    dt = rng.choice(dts)
    v = values(rng, ny, nx, nb, dt)
    kw = {}
    nod = get_default(dt)
    if rng.random() < 0.5 and dt not in (np.int64, np.uint64):
        nod = kw["nodata_value"] = rng.choice([0, 99, -1 if np.dtype(dt).kind in "if" else 7])
    m = np.random.RandomState(rng.randrange(2 ** 31)).uniform(size=(ny, nx, nb)) < rng.choice([0, 0, 0.2, 0.9])
    v[m] = nod
    T = T or gen.rnd_transform(rng)
    crs = crs or rng.choice(CRS)
    g = RegularGrid(T, values=v if nb > 1 or rng.random() < 0.5 else v[:, :, 0], crs=crs,
                    bandclass=rng.choice([None, SimpleBand, CompressedBand]), **kw)
    return g, v, T, crs, nod


def get_default(dt):
    k = np.dtype(dt).kind
    return np.nan if k in "fc" else np.iinfo(dt).max if k == "u" else np.iinfo(dt).min


def same_number(a, b):
    return a == b or (a != a and b != b)


def same_crs(ctx, got, want, what):
    if want is K.Cartesian:
        ctx.check(got == K.Cartesian, what + ": coordinate system", got=got.get_proj4())
        return
    ctx.check(isinstance(got, type(want)), what + ": kind of coordinate system", got=type(got).__name__, want=type(want).__name__)
    if isinstance(want, K.GeographicalCRS):
        for a in "ab":
            ctx.close(getattr(got.ellipsoid, a), getattr(want.ellipsoid, a), 1e-3, what + ": ellipsoid")
        d = [[t for t in c.get_proj4().split() if t.startswith("+datum")] for c in (got, want)]
        ctx.eq(d[0], d[1], what + ": datum")
        p = (7.0, 50.0)
    else:
        lon0 = [float(t[7:]) for t in want.get_proj4().split() if t.startswith("+lon_0=")]
        zone = [int(t[6:]) for t in want.get_proj4().split() if t.startswith("+zone=")]
        lon = (lon0[0] if lon0 else 0) + 1.5 if not zone else zone[0] * 6 - 182.0
        lat = -70.5 if "=-90" in want.get_proj4() or "south" in want.get_proj4() else 70.5
        a, b = got.project(lon, lat), want.project(lon, lat)
        ctx.close(a[0], b[0], 1e-3, what + ": projection")
        ctx.close(a[1], b[1], 1e-3, what + ": projection")
        p = tuple(float(q) for q in b)
    if want in SHIFTED:
        a, b = got.transform(K.LonLatWGS84, *p), want.transform(K.LonLatWGS84, *p)
        for k in (0, 1): ctx.close(a[k], b[k], 1e-7, what + ": datum shift")
        ctx.event("shifted datum")


def same_grid(ctx, h, v, T, crs, nod, what):
    """h is the grid of these values"""
    ctx.eq(h.size, v.shape[:2], what + ": size")
    ctx.eq(h.nbands, v.shape[2], what + ": number of bands")
    ctx.arr_eq(np.array(h.transform), np.array(T), what + ": transform", atol=1e-13 * gen.tscale(T, *v.shape[:2]))
    ctx.arr_eq(h[:, :, :], v, what + ": values")
    ctx.eq(np.dtype(h.bands[0].dtype), v.dtype, what + ": data type")
    ctx.check(same_number(h.nodata, nod), what + ": nodata value", got=str(h.nodata), want=str(nod))
    same_crs(ctx, h.crs, crs, what)


def raw(ctx, fn, v, T, nod, crs):
    """the file as GDAL sees it"""
    d = gdal.Open(fn)
    ny, nx, nb = v.shape
    ctx.eq((d.RasterYSize, d.RasterXSize, d.RasterCount), (ny, nx, nb), "size of the raster in the file")
    t = d.GetGeoTransform()
    for i, j in ((0, 0), (ny, 0), (0, nx), (ny, nx)):      # corners
        x, y = T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]
        p, l = j, ny - i
        ctx.close(t[0] + p * t[1] + l * t[2], x, 1e-13 * gen.tscale(T, ny, nx), "position of a corner in the file")
        ctx.close(t[3] + p * t[4] + l * t[5], y, 1e-13 * gen.tscale(T, ny, nx), "position of a corner in the file")
    for k in range(nb):
        b = d.GetRasterBand(k + 1)
        ctx.arr_eq(b.ReadAsArray()[::-1], v[:, :, k], "values in the file")
        ctx.check(same_number(b.GetNoDataValue(), nod), "nodata value in the file", got=str(b.GetNoDataValue()), want=str(nod))
    ctx.eq(d.GetProjectionRef() == "", crs is K.Cartesian, "whether the file names a coordinate system")
    return d


@scenario(quick=450, thorough=8000, need={"written": 400, "skewed": 100, "bands": 200, "geographic": 60, "overwritten": 60, "tiled": 60, "strips": 15, "shifted datum": 60})
def round_trip(ctx):
    """grids written to GeoTIFF, read by GDAL and read back in memory and on disk"""
    rng = ctx.rng
    fn = os.path.join(ctx.tmp, "t%d.tif" % rng.randrange(3))
    if os.path.exists(fn): ctx.event("overwritten")
    g, v, T, crs, nod = mk(rng)
    kw = {}
    if rng.random() < 0.7: kw["compress"] = rng.choice([None, "PACKBITS", "DEFLATE", "LZW", "LZMA"])
    if rng.random() < 0.25: kw["tiled"] = True
    if rng.random() < 0.2: kw[rng.choice(["BIGTIFF"])] = "YES"
    if rng.random() < 0.2 and nb_(v) > 1: kw["INTERLEAVE"] = rng.choice(["BAND", "PIXEL"])
    ctx.note(T=T, shape=v.shape, dtype=str(v.dtype), crs=crs.name, nodata=str(nod), kw=kw)
    if rng.random() < 0.2:
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            r = g.to_gtiff(fn, **kw)
        ctx.check(any(issubclass(q.category, FutureWarning) for q in said), "to_gtiff announces its new name")
    else: r = g.to_geotiff(fn, **kw)
    ctx.check(r is g, "to_geotiff returns the grid")
    same_grid(ctx, g, v, T, crs, nod, "grid that was written")
    ctx.event("written")
    if T[4] or T[5]: ctx.event("skewed")
    if v.shape[2] > 1: ctx.event("bands")
    if v.size * v.itemsize > 8192: ctx.event("strips")
    if isinstance(crs, K.GeographicalCRS): ctx.event("geographic")
    d = raw(ctx, fn, v, T, nod, crs)
    c = d.GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE")
    ctx.eq(c, kw.get("compress", "PACKBITS"), "compression")
    if kw.get("tiled"):
        ctx.eq(d.GetRasterBand(1).GetBlockSize(), [256, 256], "tiles")
        ctx.event("tiled")
    if "INTERLEAVE" in kw: ctx.eq(d.GetMetadataItem("INTERLEAVE", "IMAGE_STRUCTURE"), kw["INTERLEAVE"], "creation option")
    d = None
    nb = v.shape[2]
    how = rng.randrange(4)
    if how == 0:
        h = read_geotiff(fn)
    elif how == 1:
        h = read_geotiff(fn, in_memory=False)
    elif how == 2:
        cls = rng.choice([SimpleBand, CompressedBand])
        h = read_geotiff(fn, bandclass=cls)
        ctx.check(all(isinstance(b, cls) for b in h.bands), "class of bands")
    else:
        ks = [rng.randrange(nb) for _ in range(rng.randrange(1, 4))]
        arg = ks[0] + 1 if len(ks) == 1 and rng.random() < 0.5 else [k + 1 for k in ks]
        h = read_geotiff(fn, in_memory=rng.random() < 0.5, ibands=arg)
        v = v[:, :, ks]
        ctx.note(ibands=ks)
    same_grid(ctx, h, v, T, crs, nod, "read back")
    # and once more
    fn2 = os.path.join(ctx.tmp, "u%d.tif" % rng.randrange(2))
    h.to_geotiff(fn2)
    same_grid(ctx, read_geotiff(fn2), v, T, crs, nod, "read again")
    ctx.distinct(T, v.shape, str(v.dtype), crs.name, v.tobytes()[:400].hex())


def nb_(v):
    return v.shape[2]


@scenario(quick=120, thorough=2000, need={"stacked": 60, "refused": 20})
def stack(ctx):
    """several GeoTIFFs as bands of one grid"""
    rng = ctx.rng
    T, crs, sz, dts = gen.rnd_transform(rng), rng.choice(CRS), size(rng), [rng.choice(DT)]
    n = rng.randrange(1, 5)
    F, V = [], []
    for i in range(n):
        g, v, _, _, nod = mk(rng, T=T, crs=crs, sz=sz, dts=dts, nb=rng.choice([1, 1, 2]))
        fn = os.path.join(ctx.tmp, "s%d.tif" % i)
        g.to_geotiff(fn)
        F.append(fn)
        V.append(v[:, :, :1])
        if i == 0: nod0 = nod
    ctx.note(T=T, shapes=[v.shape for v in V], crs=crs.name)
    kw = rng.choice([{}, {"in_memory": True}, {"in_memory": False}, {"bandclass": SimpleBand}])
    if n > 1 and rng.random() < 0.4:
        k = rng.randrange(1, n)
        how = rng.choice(["origin", "resolution", "skew", "size", "crs"])
        T2, crs2, sz2 = list(T), crs, sz
        if how == "origin": T2[rng.randrange(2)] += T[2]
        elif how == "resolution": T2[rng.choice([2, 3])] *= 1.5
        elif how == "skew": T2[rng.choice([4, 5])] += 0.01 * T[2]
        elif how == "size": sz2 = (sz[0] + 1, sz[1])
        else: crs2 = K.NSIDCNorth if crs is not K.NSIDCNorth else K.LonLatWGS84
        g, v, _, _, _ = mk(rng, T=tuple(T2), crs=crs2, sz=sz2, dts=dts, nb=1)
        g.to_geotiff(F[k])
        ctx.note(differs=how)
        ctx.raises((GridError, ValueError), lambda: from_geotiffs(*F, **kw), "files of different georeferencing accepted")
        ctx.event("refused")
        return
    h = from_geotiffs(*F, **kw)
    same_grid(ctx, h, np.concatenate(V, axis=2), T, crs, nod0, "stack of files")
    ctx.event("stacked")
    ctx.distinct(T, [v.shape for v in V], V[0].tobytes()[:300].hex())


@scenario(quick=250, thorough=4000, need={"foreign": 200, "no transform": 20, "no nodata": 60})
def foreign(ctx):
    """GeoTIFFs made by GDAL"""
    rng = ctx.rng
    ny, nx = size(rng)
    nb = rng.choice([1, 1, 2, 3, 5])
    dt = rng.choice([np.uint8, np.uint16, np.int16, np.uint32, np.int32, np.float32, np.float64])
    v = values(rng, ny, nx, nb, dt)          # rows from the top
    fn = os.path.join(ctx.tmp, "f%d.tif" % rng.randrange(3))
    code = {np.uint8: gdal.GDT_Byte, np.uint16: gdal.GDT_UInt16, np.int16: gdal.GDT_Int16, np.uint32: gdal.GDT_UInt32, np.int32: gdal.GDT_Int32,
            np.float32: gdal.GDT_Float32, np.float64: gdal.GDT_Float64}[dt]
    d = gdal.GetDriverByName("GTiff").Create(fn, nx, ny, nb, code)
    t = (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
    if rng.random() < 0.85:
        T = gen.rnd_transform(rng)
        t = (T[0], T[2], T[4], T[1], T[5], T[3])
        d.SetGeoTransform(t)
        t = d.GetGeoTransform()
    else: ctx.event("no transform")
    nod = get_default(dt)
    nn = rng.random() < 0.5
    if nn: ctx.event("no nodata")
    else:
        nod = rng.choice([0, 5, 77])
        for k in range(nb): d.GetRasterBand(k + 1).SetNoDataValue(nod)
    crs = rng.choice(CRS)
    if crs is not K.Cartesian: d.SetProjection(crs.get_wkt())
    for k in range(nb): d.GetRasterBand(k + 1).WriteArray(v[:, :, k])
    d.Close()
    ctx.note(t=t, shape=v.shape, dtype=str(v.dtype), crs=crs.name, nodata=None if nn else nod)
    h = read_geotiff(fn, in_memory=rng.random() < 0.5)
    ctx.arr_eq(h[:, :, :], v[::-1], "values of a file made by GDAL")
    ctx.check(same_number(h.nodata, nod), "nodata of a file made by GDAL", got=str(h.nodata), want=str(nod))
    same_crs(ctx, h.crs, crs, "file made by GDAL")
    X, Y = h.center_coords()
    l, p = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    tol = 1e-12 * (1 + sum(map(abs, t)) * max(ny, nx))
    ctx.arr_eq(X[::-1], t[0] + p * t[1] + l * t[2], "positions in a file made by GDAL", atol=tol)
    ctx.arr_eq(Y[::-1], t[3] + p * t[4] + l * t[5], "positions in a file made by GDAL", atol=tol)
    ctx.event("foreign")
    ctx.distinct(t, v.tobytes()[:400].hex(), nod)


@scenario(quick=250, thorough=4000, need={"operations": 1500, "slices": 400, "derived": 300, "refused": 60})
def on_disk(ctx):
    """a grid on disk answers like the same grid in memory, and cannot be changed"""
    rng = ctx.rng
    # a georeferencing that the file holds exactly
    T = tuple(float(rng.randrange(-100, 100)) for _ in range(2)) + tuple(rng.choice([1.0, 0.5, 30.0, 0.25, 3.0]) for _ in range(2)) + (0.0, 0.0)
    if rng.random() < 0.2: T = T[:2] + (T[2] * rng.choice([-1, 1]), -T[3], 0.0, 0.0)
    g, v, T, crs, nod = mk(rng, T=T, dts=[np.float64, np.float32, np.int16, np.uint8, np.int32], crs=K.Cartesian,
                           sz=(rng.randrange(2, 30), rng.randrange(2, 30)))
    fn = os.path.join(ctx.tmp, "d%d.tif" % rng.randrange(3))
    g.to_geotiff(fn, compress=rng.choice([None, "LZW"]))
    l = read_geotiff(fn, in_memory=False)
    ny, nx, nb = v.shape
    ctx.note(T=T, shape=v.shape, dtype=str(v.dtype))

    def sl(n):
        if rng.random() < 0.2: return rng.randrange(-n, n)
        a = [rng.choice([None, rng.randrange(-n - 2, n + 3)]) for _ in range(2)]
        return slice(a[0], a[1], rng.choice([None, 1, 2, 3, -1, -2]))

    def pt():
        i, j = rng.uniform(-0.5, ny + 0.5), rng.uniform(-0.5, nx + 0.5)
        return T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]

    def box():
        a, b = pt(), pt()
        return min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])

    def both(what, f, cmp=None):
        r = []
        for q in (l, g):
            try: r.append(("value", f(q)))
            except Exception as e: r.append(("raised", type(e).__name__))
        ctx.event("operations")
        (ka, a), (kb, b) = r
        if ka != kb: ctx.check(False, what + ": on disk and in memory differ", got=[ka, repr(a)], want=[kb, repr(b)])
        if ka == "raised":
            ctx.eq(a, b, what + ": errors on disk and in memory differ")
            return
        if isinstance(a, RegularGrid):
            ctx.arr_eq(np.array(a.transform), np.array(b.transform), what + ": transform on disk and in memory differ", atol=1e-12 * gen.tscale(T, ny, nx))
            ctx.eq((a.size, a.nbands), (b.size, b.nbands), what + ": size on disk and in memory differ")
            ctx.arr_eq(a[:, :, :], b[:, :, :], what + ": values on disk and in memory differ")
            ctx.event("derived")
        else: ctx.arr_eq(a, b, what + ": on disk and in memory differ", rtol=1e-12)

    copies = []
    for _ in range(rng.randrange(4, 12)):
        op = rng.choice(["slice", "slice", "slice", "mask", "rows", "sample", "bilinear", "clip", "resize", "resample", "chunks", "stats", "copy",
                         "add", "merge", "poly", "profile", "set", "gc", "values"])
        ctx.note(op=op)
        if op == "slice":
            k = (sl(ny), sl(nx)) + ((sl(nb),) if rng.random() < 0.4 else ())
            ctx.note(key=str(k))
            both("slice", lambda q: q[k])
            ctx.event("slices")
        elif op == "mask":
            m = np.random.RandomState(rng.randrange(999)).uniform(size=(ny, nx)) < 0.4
            both("mask", lambda q: q[m])
        elif op == "rows" and rng.random() < 0.5: both("rows of bands", lambda q: np.array([np.array(r) for b in q.bands
                                                       for r in (b if hasattr(b, "__iter__") else b.getblock(0, 0, ny, nx))]))
        elif op == "rows": both("rows", lambda q: np.array([np.array(r) for r in q.values]))
        elif op == "values": both("values", lambda q: np.array(q.values[:, :]))
        elif op == "sample":
            P = [pt() for _ in range(5)]
            both("sample", lambda q: np.array(q.sample(np.array([p[0] for p in P]), np.array([p[1] for p in P]), method="nearest"), dtype=float))
        elif op == "bilinear":
            p = pt()
            both("bilinear", lambda q: np.array(q.sample(Point(p)), dtype=float))
        elif op == "clip":
            b = box()
            both("clip", lambda q: q.clip(*b))
        elif op == "resize":
            b = box()
            both("resize", lambda q: q.resize((b[0], b[2], b[1], b[3])))
        elif op == "resample":
            d = (T[2] * rng.choice([0.5, 2, 1.7]), T[3] * rng.choice([0.5, 2, 1]))
            both("resample", lambda q: q.resample(d[0], d[1], method=rng.choice(["nearest"])))
        elif op == "chunks":
            s, o = (rng.randrange(1, ny + 2), rng.randrange(1, nx + 2)), (0, 0)
            both("chunks", lambda q: np.concatenate([c[:, :, :].ravel() for c in q.aschunks(size=s, overlap=o)]))
        elif op == "stats": both("statistics", lambda q: np.array(list(q.minmax()) + list(q.data_extent()) + list(q.extent()), dtype=float))
        elif op == "copy":
            c = l.copy()
            both("copy", lambda q: c if q is l else q)
            copies.append(c)
        elif op == "add": both("sum", lambda q: q + g)
        elif op == "merge": both("mosaic", lambda q: merge([q, g]))
        elif op == "poly":
            a, b, c = pt(), pt(), pt()
            if abs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])) > 1e-9 and min(T[2:4]) > 0:
                both("masked by polygon", lambda q: q.mask_by_poly(Polygon([a, b, c])) if q is g else q.copy() and g.mask_by_poly(Polygon([a, b, c])))
        elif op == "profile":
            a, b = pt(), pt()
            if abs(a[0] - b[0]) + abs(a[1] - b[1]) > 0.01 * abs(T[2]):
                both("profile", lambda q: np.array(q.profile(Line([a, b]), resolution=abs(T[2]) * 0.7, method="nearest")[1], dtype=float))
        elif op == "set":
            q = rng.choice([l] + copies)
            f = rng.choice([lambda: q.__setitem__((0, 0), 1), lambda: q.__setitem__((slice(None), slice(None)), 0), lambda: q.apply(lambda a: a, inplace=True),
                            lambda: q.bands[0].setblock(0, 0, np.zeros((1, 1)))])
            ctx.raises(NotImplementedError, f, "grids on disk cannot be changed")
            ctx.event("refused")
        elif op == "gc":
            if copies and rng.random() < 0.5: copies.pop(0)
            gc.collect()
    for c in copies: ctx.arr_eq(c[:, :, :], v, "copy of a grid on disk")
    ctx.arr_eq(l[:, :, :], v, "grid on disk at the end")
    ctx.arr_eq(g[:, :, :], v, "grid in memory at the end")
    ctx.distinct(T, v.tobytes()[:400].hex(), repr(ctx.log)[:1500])


@scenario(quick=500, thorough=8000, need={"written": 250, "read": 250, "refused": 60, "nodata": 150, "open file": 60})
def ascii_grids(ctx):
    """ESRI ASCII grids written and read back, and made by hand"""
    rng = ctx.rng
    ny, nx = rng.randrange(1, 15), rng.randrange(1, 15)
    d = rng.choice([1.0, 30.0, 0.25, rng.uniform(0.01, 100)])
    T = (gen.rnd_num(rng), gen.rnd_num(rng), d, d, 0.0, 0.0)
    if rng.random() < 0.3: T = (rng.choice([0.0, -d / 2, T[0]]), rng.choice([0.0, -d / 2, T[1]])) + T[2:]
    v = values(rng, ny, nx, 1, rng.choice([np.float64, np.float32, np.int32, np.uint8, np.int16]))
    fn = os.path.join(ctx.tmp, "a%d.asc" % rng.randrange(3))
    isf = v.dtype.kind == "f"
    marker = rng.choice([-9999, -9999, -1.5e30 if isf else 300000, -32768])
    nod = rng.choice([None, 0, 99])
    eff = get_default(v.dtype) if nod is None else nod
    m = np.random.RandomState(rng.randrange(2 ** 31)).uniform(size=v.shape) < rng.choice([0, 0.3, 0.9])
    v[v == marker] = 1
    v[v == eff] = 1
    v[m] = eff
    want = np.where(m, np.nan, v.astype(float))
    ctx.note(T=T, shape=v.shape, dtype=str(v.dtype), marker=marker, nodata=nod)
    if m.any(): ctx.event("nodata")
    if rng.random() < 0.2:
        how = rng.choice(["skew x", "skew y", "rotation", "anisotropic", "bands", "reference"])
        T2, vv, kw = list(T), v, {}
        if how in ("skew x", "rotation"): T2[4] = 0.3 * d
        if how in ("skew y", "rotation"): T2[5] = rng.choice([0.3, -0.3]) * d
        if how == "anisotropic": T2[3] = d * 1.5
        if how == "bands": vv = np.repeat(v, 2, axis=2)
        if how == "reference": kw["reference"] = "middle"
        g = RegularGrid(T2, values=vv)
        if os.path.exists(fn): os.remove(fn)
        ctx.raises(GridError, lambda: g.to_aai(fn, **kw), "grid that cannot be an ASCII grid: " + how)
        ctx.check(not os.path.exists(fn), "a refused grid leaves no file")
        ctx.event("refused")
        return
    if rng.random() < 0.6:
        g = RegularGrid(T, values=v if rng.random() < 0.5 else v[:, :, 0], **({} if nod is None else {"nodata_value": nod}))
        kw = {}
        if rng.random() < 0.5: kw["reference"] = rng.choice(["center", "corner"])
        if marker != -9999 or rng.random() < 0.3: kw["nodata_value"] = marker
        if rng.random() < 0.3:
            s = io.StringIO()
            r = g.to_aai(s, **kw)
            ctx.check(not s.closed, "a file given by the caller was closed")
            with open(fn, "w") as f: f.write(s.getvalue())
            ctx.event("open file")
        else: r = g.to_aai(fn, **kw)
        ctx.check(r is g, "to_aai returns the grid")
        ctx.arr_eq(g[:, :, :], v, "grid that was written")
        # the file, as GDAL reads it: rows from the top
        ds = gdal.Open(fn)
        b = ds.GetRasterBand(1)
        a = b.ReadAsArray().astype(float)
        k = b.GetNoDataValue()
        if isf and v.dtype == np.float64 and abs(np.nan_to_num(want)).max() < 1e6:
            ctx.arr_eq(np.isnan(want[::-1, :, 0]) | (abs(a - want[::-1, :, 0]) <= 1e-4 + 1e-6 * abs(want[::-1, :, 0])), np.ones((ny, nx), dtype=bool), "values as GDAL reads them")
        t = ds.GetGeoTransform()
        ctx.close(t[0], T[0], 1e-9 * (abs(T[0]) + d), "left edge as GDAL reads it")
        ctx.close(t[3] + ny * t[5], T[1], 1e-9 * (abs(T[1]) + ny * d), "lower edge as GDAL reads it")
        ctx.event("written")
    else:
        rows = [[marker if np.isnan(x) else x for x in row] for row in want[::-1, :, 0].tolist()]
        ref = rng.choice(["corner", "center"])
        o = 0.0 if ref == "corner" else d / 2
        H = [("ncols", nx), ("nrows", ny), ("xll" + ref, repr(T[0] + o)), ("yll" + ref, repr(T[1] + o)), ("cellsize", repr(d))]
        if marker != -9999 or rng.random() < 0.5: H.append(("nodata_value", repr(marker)))
        rng.shuffle(H)
        up = rng.choice([str.upper, str.lower, str.capitalize])
        sep = rng.choice([" ", "  ", "\t"])
        blank = rng.random() < 0.15
        s = "".join(up(k) + rng.choice([" ", "   ", "\t"]) + str(x) + "\n" for k, x in H) + ("\n" if blank else "")
        flow = [repr(x) for r in rows for x in r]
        if rng.random() < 0.25:
            w = rng.randrange(1, 8)
            s += "".join(sep.join(flow[i:i + w]) + "\n" for i in range(0, len(flow), w))
        else: s += "".join(rng.choice(["", " "]) + sep.join(map(repr, r)) + rng.choice(["", " "]) + "\n" for r in rows)
        s += rng.choice(["", "", "\n", "\n \n"])
        with open(fn, "w") as f: f.write(s)
        ctx.note(text=s[:1500])
        ctx.event("read")
    h = read_aai(fn)
    ctx.eq(h.size, (ny, nx), "size of an ASCII grid")
    ctx.arr_eq(np.array(h.transform), np.array(T), "transform of an ASCII grid", atol=1e-12 * (abs(T[0]) + abs(T[1]) + d))
    ctx.arr_eq(h[:, :, :], want, "values of an ASCII grid")
    ctx.check(h.nodata != h.nodata, "nodata of an ASCII grid")
    ctx.distinct(T, v.tobytes().hex()[:500], str(v.dtype))
