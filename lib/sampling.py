"""Independent nearest and bilinear samples of cell arrays."""
import numpy as np


def ref_nearest(v, pi, pj, nodata):
    ny, nx, nb = v.shape
    out = np.empty((nb, len(pi)), dtype=v.dtype)
    for k in range(len(pi)):
        i, j = int(np.floor(pi[k] + 0.5)), int(np.floor(pj[k] + 0.5))
        out[:, k] = v[i, j] if (0 <= i < ny and 0 <= j < nx) else nodata
    return out


EITHER = object()      # contact with nodata within rounding


def ref_bilinear(v, pi, pj, nodata=None, tol=0.0):
    """float64 blend of the four surrounding cell centres (per band); None outside their hull; where a cell with weight is
    nodata the sample is nodata; where one with weight within rounding of zero is, EITHER"""
    ny, nx, nb = v.shape
    out = []
    w = v.astype(float)
    nan = nodata is not None and nodata != nodata
    for a, b in zip(pi, pj):
        if a < 0 or a > ny - 1 or b < 0 or b > nx - 1 or ny < 2 or nx < 2:
            out.append(None)
            continue
        i, j = min(int(a), ny - 2), min(int(b), nx - 2)
        s, t = a - i, b - j
        res = []
        for k in range(nb):
            z = 0.0
            for c, f in ((w[i, j, k], (1 - s) * (1 - t)), (w[i, j + 1, k], (1 - s) * t), (w[i + 1, j, k], s * (1 - t)), (w[i + 1, j + 1, k], s * t)):
                blank = (c != c) if nan else (nodata is not None and c == nodata)
                if blank and (f > 3 * tol or (tol == 0 and f > 0)):
                    z = None
                    break
                elif blank and tol > 0:
                    z = EITHER
                elif z is not EITHER and f != 0:
                    z += f * c
            if tol > 0 and z is not None:      # cells which a rounded position may touch
                for ii in range(max(int(np.floor(a - tol)), 0), min(int(np.ceil(a + tol)), ny - 1) + 1):
                    for jj in range(max(int(np.floor(b - tol)), 0), min(int(np.ceil(b + tol)), nx - 1) + 1):
                        c = w[ii, jj, k]
                        if (c != c) if nan else (nodata is not None and c == nodata):
                            z = EITHER
            res.append(z)
        out.append(res)
    return out


def blend_ok(ctx, got, want, nodata, atol, what, **kw):
    """compares one sample (all bands) with ref_bilinear's"""
    got = np.asarray(got)
    if want is None:
        ctx.check(bool(np.all(is_nodata(got, nodata))), what + ": point outside the cell centres must give nodata", got=str(got), **kw)
        return
    for z, w in zip(got.ravel().tolist(), want):
        if w is None:
            ctx.event("touching_nodata")
            ctx.check(bool(is_nodata(z, nodata)), what + ": touching nodata must give nodata", got=z, **kw)
        elif w is not EITHER:
            ctx.check(abs(z - w) <= atol, what, got=z, want=w, **kw)


def is_nodata(z, nodata):
    return np.isnan(z) if nodata != nodata else z == nodata
