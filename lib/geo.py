"""Exact and tolerant planar references."""
from fractions import Fraction as F
import math
import numpy as np


def outer(mp, k):
    """outer coordinates of member k of a Multiline/Multipolygon"""
    g = mp[k]
    return [tuple(v) for v in g.vertices()]


def segs(P, ring):
    n = len(P)
    return [(P[i], P[(i + 1) % n]) for i in range(n if ring else n - 1)]


def orient(a, b, c):
    """exact sign of the orientation of float points"""
    d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    m = abs(b[0] - a[0]) * abs(c[1] - a[1]) + abs(b[1] - a[1]) * abs(c[0] - a[0])
    if abs(d) > 1e-12 * m:
        return 1 if d > 0 else -1
    ax, ay, bx, by, cx, cy = map(F, (a[0], a[1], b[0], b[1], c[0], c[1]))
    d = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    return (d > 0) - (d < 0)


def on_box(p, q, r):
    return min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])


def seg_relation(a, b, c, d):
    """exact: 2 proper crossing, 1 contact (touch/overlap), 0 disjoint"""
    d1, d2, d3, d4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if d1 * d2 < 0 and d3 * d4 < 0:
        return 2
    if (d1 == 0 and on_box(a, b, c)) or (d2 == 0 and on_box(a, b, d)) or \
            (d3 == 0 and on_box(c, d, a)) or (d4 == 0 and on_box(c, d, b)):
        return 1
    return 0


def relation(A, ra, B, rb):
    best = 0
    for a, b in segs(A, ra):
        for c, d in segs(B, rb):
            r = seg_relation(a, b, c, d)
            if r == 2:
                return 2
            best = max(best, r)
    return best


def seg_point_d(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    t = 0.0 if L == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def seg_seg_d(a, b, c, d):
    return min(seg_point_d(a, c, d), seg_point_d(b, c, d), seg_point_d(c, a, b), seg_point_d(d, a, b))


def crossing(A, ra, B, rb, eps):
    """True: some pair of segments crosses with all end points further than eps from the other segment;
    False: all pairs disjoint by more than eps; None: hinges on near contact"""
    near = False
    for a, b in segs(A, ra):
        ax0, ax1 = min(a[0], b[0]) - eps, max(a[0], b[0]) + eps
        ay0, ay1 = min(a[1], b[1]) - eps, max(a[1], b[1]) + eps
        for c, d in segs(B, rb):
            if max(c[0], d[0]) < ax0 or min(c[0], d[0]) > ax1 or max(c[1], d[1]) < ay0 or min(c[1], d[1]) > ay1:
                continue
            if seg_seg_d(a, b, c, d) <= eps:
                near = True
            elif seg_relation(a, b, c, d) == 2:
                return True
    return None if near else False
