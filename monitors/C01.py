"""C01 raster band storage == array model, over random histories."""
import numpy as np
from lib.mon import scenario, Skip
from karta.raster.band import SimpleBand, CompressedBand, BandIndexer
from karta.raster.grid import RegularGrid

RULE = ("a case is a random history of writes (blocks, rows, columns, pixels, masks) and reads on freshly made "
        "bands of random class, dtype, size and chunk layout; distinct by its full operation list; trivial "
        "histories (no write followed by a read of another shape) are not counted")

DTYPES = [np.float64, np.float32, np.int16, np.int32, np.uint8, np.uint16, np.int64, np.uint32, np.int8]


def rnd_slice(rng, n, steps=True, maxstep=4):
    """slice over range(n), with all spellings of bounds; empty now and then"""
    if rng.random() < 0.04:
        a, b = rng.randrange(n + 1), rng.randrange(n + 1)
        return slice(max(a, b), min(a, b), rng.choice([None, 1]) if not steps or rng.random() < 0.6 else rng.choice([2, 3])) if \
            not steps or rng.random() < 0.5 else slice(min(a, b), max(a, b), rng.choice([-1, -2]))
    a = rng.randrange(n)
    b = rng.randrange(a, n) + 1
    step = 1
    if steps and rng.random() < 0.5:
        step = rng.choice([1, 2, 3, maxstep, -1, -1, -2, -3])
    def neg(v):
        return v - n if rng.random() < 0.3 and v < n else v
    if step > 0:
        s = rng.choice([neg(a), None]) if a == 0 else neg(a)
        e = rng.choice([b, None, n + 5]) if b == n else neg(b)
        return slice(s, e, rng.choice([None, 1]) if step == 1 else step)
    # negative step: from b-1 down to a
    s = rng.choice([None, b - 1, n + 3]) if b == n else neg(b - 1)
    e = None if a == 0 else neg(a - 1)
    if a == 0 and rng.random() < 0.3:
        e = -n - 1
    return slice(s, e, step)


def rnd_int(rng, n):
    return rng.randrange(-n, n)


def rnd_values(rng, shape, dtype):
    info = np.iinfo(dtype) if np.dtype(dtype).kind in "iu" else None
    k = int(np.prod(shape))
    if info:
        v = [rng.choice([info.min, info.max, rng.randrange(-100, 100), rng.randrange(0, 100)]) if rng.random() < 0.1
             else rng.randrange(0, 120) for _ in range(k)]
        v = [min(max(x, info.min), info.max) for x in v]
        return np.array(v, dtype=dtype).reshape(shape)
    v = [float("nan") if rng.random() < 0.03 else rng.choice([rng.uniform(-1e3, 1e3), rng.randrange(1000)]) for _ in range(k)]
    return np.array(v, dtype=dtype).reshape(shape)


def mkbands(ctx, rng, size, dtype, nb):
    cls = rng.choice(["simple", "compressed", "compressed"])
    init = None
    if rng.random() < 0.6:
        init = rng.choice([0, 1, 7, 100])
        if np.dtype(dtype).kind == "f" and rng.random() < 0.4:
            init = float("nan")
    chunk = None
    bands = []
    for _ in range(nb):
        if cls == "simple":
            iv = 0 if init is None else init
            bands.append(SimpleBand(size, dtype, initval=iv))
        else:
            kw = {}
            if chunk is None and rng.random() < 0.85:
                chunk = (rng.randrange(1, 9), rng.randrange(1, 9))
            if chunk:
                kw["chunksize"] = chunk
            if init is not None:
                kw["initval"] = init
            bands.append(CompressedBand(size, dtype, **kw))
    model = np.empty(size + (nb,), dtype=dtype)
    model[...] = 0 if init is None else init
    ctx.note(cls=cls, size=size, dtype=np.dtype(dtype).name, nb=nb, chunk=chunk, init=init)
    return bands, model


def apply_write(ctx, rng, target, model):
    ny, nx, nb = model.shape
    dt = model.dtype.type
    op = rng.choice(["block", "block", "scalar", "row", "pixel", "pixelvec", "mask2", "mask3", "mask2v", "mask2bv",
                     "mask3v", "allbands", "oneslice", "band"] + (["stepped"] if rng.random() < 0.5 else []))
    if op in ("block", "scalar"):
        ys, xs = rnd_slice(rng, ny, False), rnd_slice(rng, nx, False)
        h, w = model[ys, xs, 0].shape
        k = rng.choice([2, 3, 3])
        key = (ys, xs)
        bsel = slice(None)
        if k == 3:
            if rng.random() < 0.6:
                bi = rnd_int(rng, nb)
                key = (ys, xs, bi)
                bsel = [bi % nb]
            else:
                bs = rnd_slice(rng, nb, False)
                key = (ys, xs, bs)
                bsel = list(range(*bs.indices(nb)))
        nsel = nb if bsel == slice(None) else len(bsel)
        if op == "scalar":
            v = rnd_values(rng, (1,), dt)[0]
            if rng.random() < 0.5:
                v = v.item()
            target[key] = v
            model[ys, xs, bsel] = v
        elif rng.random() < 0.5:
            v = rnd_values(rng, (h, w), dt)
            if rng.random() < 0.3:
                v = np.asfortranarray(v)
            target[key] = v
            model[ys, xs, bsel] = v[:, :, None]
        else:
            v = rnd_values(rng, (h, w, nsel), dt)
            target[key] = v
            model[ys, xs, bsel] = v
        ctx.note(op=op, key=key)
    elif op == "stepped":
        # written where a plain array would write, or refused without a trace
        ys, xs = [slice(rng.choice([None, rng.randrange(n)]), None, rng.choice([2, 3, -1, -2])) if rng.random() < 0.8 else rnd_slice(rng, n, False) for n in (ny, nx)]
        key = (ys, xs) + ((rnd_int(rng, nb),) if rng.random() < 0.5 else ())
        v = rnd_values(rng, (1,), dt)[0].item()
        ctx.note(op=op, key=key)
        try:
            target[key] = v
        except (NotImplementedError, ValueError, IndexError):
            ctx.event("write_refused")
            return
        model[key] = v
    elif op == "row":
        i = rnd_int(rng, ny)
        xs = rnd_slice(rng, nx, False)
        w = model[0, xs, 0].shape[0]
        v = rnd_values(rng, (w,), dt)
        if nb == 1 and rng.random() < 0.5 and w > 1:
            target[i, xs] = v
        elif rng.random() < 0.4 and w > 1:
            b = rnd_int(rng, nb)
            target[i, xs, b] = v
            model[i, xs, b] = v
            ctx.note(op=op, key=(i, xs, b))
            ctx.event("write_rowband")
            return
        else:
            v = v.reshape(1, w)
            target[i, xs] = v
        model[i, xs, :] = v.reshape(w, 1)
        ctx.note(op=op, key=(i, xs))
    elif op == "pixel":
        i, j, b = rnd_int(rng, ny), rnd_int(rng, nx), rnd_int(rng, nb)
        v = rnd_values(rng, (1,), dt)[0]
        target[i, j, b] = v
        model[i, j, b] = v
        ctx.note(op=op, key=(i, j, b))
    elif op == "pixelvec":
        i, j = rnd_int(rng, ny), rnd_int(rng, nx)
        v = rnd_values(rng, (nb,), dt)
        target[i, j] = v
        model[i, j] = v
        ctx.note(op=op, key=(i, j))
    elif op in ("mask2", "mask2v", "mask2bv"):
        m = np.array([rng.random() < rng.choice([0.1, 0.5]) for _ in range(ny * nx)]).reshape(ny, nx)
        c = int(m.sum())
        if op == "mask2":
            v = rnd_values(rng, (1,), dt)[0].item()
            target[m] = v
            model[m] = v
        elif op == "mask2v":
            v = rnd_values(rng, (c,), dt)
            target[m] = v
            model[m] = v[:, None]
        else:
            v = rnd_values(rng, (c, nb), dt)
            target[m] = v
            model[m] = v
        ctx.note(op=op, count=c)
    elif op in ("mask3", "mask3v"):
        m = np.array([rng.random() < 0.3 for _ in range(ny * nx * nb)]).reshape(ny, nx, nb)
        if op == "mask3":
            v = rnd_values(rng, (1,), dt)[0].item()
            target[m] = v
        else:
            v = rnd_values(rng, (int(m.sum()),), dt)
            target[m] = v
        model[m] = v
        ctx.note(op=op, count=int(m.sum()))
    elif op == "allbands":
        v = rnd_values(rng, (ny, nx, nb), dt)
        target[:, :, :] = v
        model[...] = v
        ctx.note(op=op)
    elif op == "oneslice":
        ys = rnd_slice(rng, ny, False)
        v = rnd_values(rng, model[ys].shape, dt)
        target[ys] = v
        model[ys] = v
        ctx.note(op=op, key=ys)
    elif op == "band":
        b = rnd_int(rng, nb)
        v = rnd_values(rng, (ny, nx), dt)
        target[:, :, b] = v
        model[:, :, b] = v
        ctx.note(op=op, band=b)
    ctx.event("write_" + op)


def do_read(ctx, rng, target, model):
    ny, nx, nb = model.shape
    op = rng.choice(["full", "slices", "slices", "slices", "introw", "intcol", "pixel", "bandint", "bandslice",
                     "mask2", "mask3", "oneslice"])
    if op == "full":
        key = rng.choice([(slice(None), slice(None)), (slice(None), slice(None), slice(None))])
    elif op == "slices":
        key = (rnd_slice(rng, ny), rnd_slice(rng, nx))
    elif op == "introw":
        key = (rnd_int(rng, ny), rnd_slice(rng, nx))
    elif op == "intcol":
        key = (rnd_slice(rng, ny), rnd_int(rng, nx))
    elif op == "pixel":
        key = (rnd_int(rng, ny), rnd_int(rng, nx))
        if rng.random() < 0.5:
            key += (rnd_int(rng, nb),)
    elif op == "bandint":
        key = (rnd_slice(rng, ny), rnd_slice(rng, nx), rnd_int(rng, nb))
    elif op == "bandslice":
        key = (rnd_slice(rng, ny), rnd_slice(rng, nx), rnd_slice(rng, nb))
    elif op == "mask2":
        key = np.array([rng.random() < 0.3 for _ in range(ny * nx)]).reshape(ny, nx)
    elif op == "mask3":
        key = np.array([rng.random() < 0.3 for _ in range(ny * nx * nb)]).reshape(ny, nx, nb)
    else:
        key = rnd_slice(rng, ny)
    got = target[key]
    want = model[key]
    ctx.event("read_" + op)
    ctx.arr_eq(got, want, "read %s %r returned something else than what was written" % (op, None if isinstance(key, np.ndarray) else key))
    ctx.check(np.asarray(got).dtype == want.dtype, "read changes dtype")
    if isinstance(got, np.ndarray) and got.size and rng.random() < 0.3:
        # a value handed out is the caller's: writing into it must not change the band
        got[...] = 0 if got.flat[0] != 0 else 1
        ctx.event("scribble")


def final(ctx, target, model, bands):
    ctx.arr_eq(target[:, :, :], model, "final full read differs from the model")
    for b in range(model.shape[2]):
        ctx.arr_eq(bands[b].getblock(0, 0, model.shape[0], model.shape[1]), model[:, :, b], "final getblock differs")
    ctx.eq(tuple(target.shape if hasattr(target, "shape") else target.size), model.shape[:2], "shape")


@scenario(quick=1400, thorough=16000, need={"write_block": 200, "read_slices": 200, "write_mask3v": 20, "scribble": 50})
def history_small(ctx):
    """random op histories on small multi-band stores with tiny chunks"""
    rng = ctx.rng
    size = (rng.randrange(1, 19), rng.randrange(1, 19))
    nb = rng.choice([1, 1, 2, 3, 6])
    dt = rng.choice(DTYPES)
    bands, model = mkbands(ctx, rng, size, dt, nb)
    target = BandIndexer(bands)
    if rng.random() < 0.4:
        target = RegularGrid((0, 0, 1, 1, 0, 0), bands=bands, nodata_value=0)
    ctx.arr_eq(target[:, :, :], model, "fresh band does not hold its initial value")
    n = rng.randrange(2, 9)
    for _ in range(n):
        apply_write(ctx, rng, target, model)
        for _ in range(rng.randrange(0, 3)):
            do_read(ctx, rng, target, model)
    final(ctx, target, model, bands)
    ctx.distinct(ctx.log)


@scenario(quick=300, thorough=3000, need={"getblock": 500, "setblock": 500})
def blocks(ctx):
    """getblock / setblock histories directly on bands"""
    rng = ctx.rng
    size = (rng.randrange(1, 40), rng.randrange(1, 40))
    dt = rng.choice(DTYPES)
    bands, model = mkbands(ctx, rng, size, dt, 1)
    band = bands[0]
    ctx.eq(tuple(band.size), size, "size")
    for _ in range(rng.randrange(2, 10)):
        y, x = rng.randrange(size[0]), rng.randrange(size[1])
        h, w = rng.randrange(1, size[0] - y + 1), rng.randrange(1, size[1] - x + 1)
        if rng.random() < 0.5:
            v = rnd_values(rng, (h, w), dt)
            keep = v.copy()
            band.setblock(y, x, v)
            ctx.arr_eq(v, keep, "setblock modified its argument")
            v[...] = 1          # the band must hold its own copy
            model[y:y + h, x:x + w, 0] = keep
            ctx.event("setblock")
        else:
            ctx.arr_eq(band.getblock(y, x, h, w), model[y:y + h, x:x + w, 0], "getblock(%d,%d,%d,%d)" % (y, x, h, w))
            ctx.event("getblock")
        ctx.note(y=y, x=x, h=h, w=w)
    ctx.arr_eq(band.getblock(0, 0, *size), model[:, :, 0], "final getblock")
    ctx.distinct(ctx.log)


@scenario(quick=36, thorough=400, need={"setblock": 60})
def large_default_chunks(ctx):
    """default 256x256 chunk layout, writes straddling chunk borders"""
    rng = ctx.rng
    size = (rng.choice([255, 256, 257, 300, 511, 512, 513, 700]), rng.choice([1, 255, 256, 257, 300, 512, 513, 770]))
    dt = rng.choice([np.float64, np.int16, np.uint8])
    init = rng.choice([0, 3, float("nan")] if dt == np.float64 else [0, 3])
    band = CompressedBand(size, dt, initval=init)
    model = np.full(size, init, dtype=dt)
    ctx.note(size=size, dt=np.dtype(dt).name)
    nprng = np.random.RandomState(rng.randrange(2**31))
    for _ in range(rng.randrange(2, 7)):
        def span(n):
            c = rng.choice([0, 255, 256, 257, 511, 512, n - 1, rng.randrange(n)])
            a = max(0, min(n - 1, c - rng.choice([0, 1, 2, 100])))
            b = max(a + 1, min(n, c + rng.choice([1, 2, 3, 150, 300])))
            return a, b
        (y0, y1), (x0, x1) = span(size[0]), span(size[1])
        v = nprng.randint(0, 120, size=(y1 - y0, x1 - x0)).astype(dt)
        band.setblock(y0, x0, v)
        model[y0:y1, x0:x1] = v
        ctx.event("setblock")
        (y0, y1), (x0, x1) = span(size[0]), span(size[1])
        ctx.arr_eq(band.getblock(y0, x0, y1 - y0, x1 - x0), model[y0:y1, x0:x1], "getblock across default chunks")
        ctx.note(y=(y0, y1), x=(x0, x1))
    g = RegularGrid((0, 0, 1, 1, 0, 0), bands=[band], nodata_value=0)
    ctx.arr_eq(g[:, :, 0], model, "full read across default chunks")
    ctx.arr_eq(g[::-3, ::2, 0], model[::-3, ::2], "stepped read across default chunks")
    ctx.distinct(ctx.log)


@scenario(quick=300, thorough=3000, need={"grid": 250})
def grid_values(ctx):
    """a grid made from an array reads back that array; rows iterate in order; copies are independent"""
    rng = ctx.rng
    size = (rng.randrange(1, 15), rng.randrange(1, 15))
    nb = rng.choice([0, 1, 2, 4, 5, 7])
    dt = rng.choice(DTYPES)
    v = rnd_values(rng, size if nb == 0 else size + (nb,), dt)
    keep = v.copy()
    kw = {}
    if rng.random() < 0.5:
        kw["bandclass"] = rng.choice([SimpleBand, CompressedBand])
    g = RegularGrid((rng.uniform(-5, 5), 2, 1, 1, 0, 0), values=v, **kw)
    v[...] = 1
    model = keep.reshape(size + (max(nb, 1),))
    ctx.note(size=size, nb=nb, dt=np.dtype(dt).name, kw=str(kw))
    ctx.arr_eq(g[:, :, :], model, "grid does not hold the values it was made from")
    ctx.eq(tuple(g.size), size, "size")
    ctx.eq(g.nbands, max(nb, 1), "nbands")
    ctx.eq(tuple(g.values.shape), size, "values.shape")
    rows = list(g.values)
    ctx.eq(len(rows), size[0], "row iteration count")
    for i, r in enumerate(rows):
        ctx.arr_eq(np.asarray(r), model[i].T.reshape(model.shape[2], size[1]), "row %d of iteration" % i)
    c = g.copy()
    apply_write(ctx, rng, c, model2 := model.copy())
    ctx.arr_eq(c[:, :, :], model2, "copy after write")
    ctx.arr_eq(g[:, :, :], model, "writing to a copy changed the original")
    apply_write(ctx, rng, g, model)
    ctx.arr_eq(c[:, :, :], model2, "writing to the original changed the copy")
    ctx.arr_eq(g[:, :, :], model, "original after write")
    ctx.event("grid")
    ctx.distinct(ctx.log)
