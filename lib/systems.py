"""Pairs of coordinate systems whose datums lie kilometres apart, and positions in both made by PROJ alone: an operation given
a geometry in one must answer as if it had been given in the other."""
import pyproj
from karta.crs import GeographicalCRS, ProjectedCRS, LonLatWGS84, LonLatNAD83, WebMercator

FAR = "+towgs84=5200,-7300,4100"
SYSTEMS = [LonLatWGS84, LonLatNAD83, WebMercator,
           GeographicalCRS("+ellps=bessel", "far (Bessel)", datum=FAR),
           GeographicalCRS("+ellps=airy", "far (Airy)", datum="+towgs84=-3100,2500,-6000,0.2,0.5,-2.4,6.7"),
           ProjectedCRS("+proj=utm +zone=32 +datum=WGS84", "UTM 32"),
           ProjectedCRS("+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84", "WGS84 (Geographical)"),
           ProjectedCRS("+proj=tmerc +lat_0=49 +lon_0=9 +ellps=bessel +units=m " + FAR, "far (tmerc)"),
           ProjectedCRS("+proj=laea +lat_0=50 +lon_0=12 +ellps=airy +towgs84=-3100,2500,-6000,0.2,0.5,-2.4,6.7", "far (laea)")]
_cache = {}


def mover(A, B):
    """positions in A to positions in B, by PROJ"""
    k = (A.get_proj4(), B.get_proj4())
    if k not in _cache:
        _cache[k] = pyproj.Transformer.from_crs(k[0], k[1], always_xy=True)
    t = _cache[k]
    return lambda p: tuple(map(float, t.transform(p[0], p[1]))) + tuple(p[2:])


def pair(rng):
    """two systems, and a function from WGS84 positions near 10E 50N to positions in the second"""
    A = rng.choice(SYSTEMS)
    B = rng.choice([s for s in SYSTEMS if s is not A])
    return A, B, mover(LonLatWGS84, B), mover(B, A)


def near(rng, r=0.2, cx=10.0, cy=50.0):
    return (cx + rng.uniform(-r, r), cy + rng.uniform(-r, r))
