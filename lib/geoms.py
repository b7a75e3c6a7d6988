"""Random geometries of every kind and their plain coordinate structure, shared by the monitors."""
import math
import numpy as np
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon



def coords(rng, n, z, S):
    return [tuple(S * rng.uniform(-1, 1) if rng.random() < 0.7 else S * rng.randrange(-4, 5) for _ in range(3 if z else 2))
            for _ in range(n)]



def matrix(rng, three):
    k = rng.random()
    r = 3 if three else 2
    A = [[rng.uniform(-3, 3) for _ in range(r)] for _ in range(r)]
    if k < 0.2:
        A = [[float(i == j) * rng.choice([1, -1, 2]) for j in range(r)] for i in range(r)]
    elif k < 0.3:
        A[1] = [2 * a for a in A[0]]
    t = [rng.choice([0.0, 1.0, rng.uniform(-50, 50), 1e5]) for _ in range(r)]
    return np.array([row + [b] for row, b in zip(A, t)], dtype=np.float64)



def apply(M, p):
    """reference: the documented product, third coordinates untouched by two-dimensional maps"""
    if M.shape == (2, 3):
        q = tuple(math.fsum([M[i, 0] * p[0], M[i, 1] * p[1], M[i, 2]]) for i in range(2))
        return q + tuple(p[2:])
    z = p[2] if len(p) == 3 else 0.0
    q = tuple(math.fsum([M[i, 0] * p[0], M[i, 1] * p[1], M[i, 2] * z, M[i, 3]]) for i in range(3))
    return q[:len(p)]



def rings(g):
    """every vertex of a polygon and of its sub-polygons, nested"""
    return [[tuple(map(float, v)) for v in g.vertices()]] + [rings(s) for s in g.subs]



def state(g):
    """(nested coordinate structure, per-part properties)"""
    t = g._geotype
    if t == "Point":
        return [tuple(map(float, g.vertex()))]
    if t in ("Line", "Multipoint"):
        return [tuple(map(float, v)) for v in g.vertices()]
    if t == "Polygon":
        return rings(g)
    if t == "Multiline":
        return [[tuple(map(float, v)) for v in a] for a in g.vertices()]
    return [[[tuple(map(float, v)) for v in a] for a in p] for p in g.vertices()]



def mapped(st, f):
    if isinstance(st, tuple):
        return f(st)
    return [mapped(s, f) for s in st]



def flat(st):
    if isinstance(st, tuple):
        return [st]
    return [p for s in st for p in flat(s)]



def shape_of(st):
    return len(st) if isinstance(st, tuple) else [shape_of(s) for s in st]



def make(rng, kind, z, S, crs):
    props = {"name": "g%d" % rng.randrange(99)} if rng.random() < 0.6 else {}
    if kind == "Point":
        return Point(coords(rng, 1, z, S)[0], properties=dict(props), crs=crs)
    n = rng.choice([2, 3, 5, 8, 60])
    if kind == "Line":
        return Line(coords(rng, n, z, S), properties=dict(props), crs=crs)
    if kind == "Multipoint":
        n = rng.choice([1, 2, 5, 51, 120])
        return Multipoint(coords(rng, n, z, S), data={"v": list(range(n))} if rng.random() < 0.7 else None,
                          properties=dict(props), crs=crs)
    if kind == "Polygon":
        def poly(depth):
            subs = [poly(depth - 1) for _ in range(rng.randrange(0, 3))] if depth else []
            return Polygon(coords(rng, rng.randrange(3, 9), z, S), subs=subs, crs=crs)
        p = poly(rng.randrange(0, 3))
        p.properties = dict(props)
        return p
    m = rng.choice([1, 2, 5, 55])
    data = {"id": list(range(m)), "s": ["r%d" % i for i in range(m)]} if rng.random() < 0.7 else None
    if kind == "Multiline":
        return Multiline([coords(rng, rng.randrange(2, 6), z, S) for _ in range(m)], data=data, properties=dict(props), crs=crs)
    return Multipolygon([[coords(rng, rng.randrange(3, 6), z, S) for _ in range(rng.randrange(1, 4))] for _ in range(m)],
                        data=data, properties=dict(props), crs=crs)



def box(st):
    P = flat(st)
    return (min(p[0] for p in P), min(p[1] for p in P), max(p[0] for p in P), max(p[1] for p in P))



def first_rings(r):
    """coordinates that bound a geometry (sub-polygons are inside their outer ring)"""
    st = state(r)
    if r._geotype == "Polygon":
        return st[0]
    if r._geotype == "Multipolygon":
        return [p[0] for p in st]
    return st
