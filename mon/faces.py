# -*- coding: utf-8 -*-
"""
The closed areas of any set of walls in the section, by tracing the faces of the plane graph in exact arithmetic, and the
rooms on both sides of each wall. An answer that needs no model of the vessel; None where the walls do not form a plane
graph whose bounded faces are simple polygons.
"""
from common import *


def half(v):
    return 0 if v[1] > 0 or (v[1] == 0 and v[0] > 0) else 1


def by_angle(vs):
    import functools

    def c(a, b):
        if half(a[1]) != half(b[1]):
            return half(a[1]) - half(b[1])
        x = a[1][0] * b[1][1] - a[1][1] * b[1][0]
        return -1 if x > 0 else 1 if x < 0 else 0
    return [x[0] for x in sorted(vs, key=functools.cmp_to_key(c))]


def prune(es):
    """ without loose ends """
    es = set(es)
    while True:
        deg = {}
        for a, b in es:
            deg[a] = deg.get(a, 0) + 1
            deg[b] = deg.get(b, 0) + 1
        left = {e for e in es if deg[e[0]] > 1 and deg[e[1]] > 1}
        if left == es:
            return es
        es = left


def faces(es):
    """ es: edges of integer points. list of outlines (bounded faces, counterclockwise), or None """
    es = {tuple(sorted(e)) for e in es if e[0] != e[1]}
    pts = {p for e in es for p in e}
    lp = sorted(pts)
    for k, p in enumerate(lp):
        for q in lp[k + 1:]:
            if q[0] - p[0] > 20000:
                break
            if abs(q[1] - p[1]) <= 20000:
                return None  # points that may or may not be the same
    es = prune(es)
    le = sorted(es)
    for k, (a, b) in enumerate(le):
        for c, d in le[k + 1:]:
            n = len({a, b, c, d})
            if n == 4 and segs_meet(a, b, c, d):
                return None
            if n == 3:
                o = ({a, b} & {c, d}).pop()
                x, y = (b if a == o else a), (d if c == o else c)
                if cross(o, x, y) == 0 and (x[0] - o[0]) * (y[0] - o[0]) + (x[1] - o[1]) * (y[1] - o[1]) > 0:
                    return None
    nb = {}
    for a, b in es:
        nb.setdefault(a, []).append((b, (b[0] - a[0], b[1] - a[1])))
        nb.setdefault(b, []).append((a, (a[0] - b[0], a[1] - b[1])))
    nb = {p: by_angle(v) for p, v in nb.items()}
    left = {(a, b) for a, b in es} | {(b, a) for a, b in es}
    out = []
    while left:
        a, b = e0 = min(left)
        f = []
        e = e0
        while True:
            left.discard(e)
            f.append(e[0])
            v = nb[e[1]]
            k = v.index(e[0])
            e = (e[1], v[k - 1])  # the next one clockwise
            if e == e0:
                break
        if len(set(f)) != len(f):
            return None
        if shoelace2(f) > 0:
            out.append(f)
    return out


def innermost(fs, q):
    """ number of the room at q (3 times finer integers are not needed: q is not on a wall) """
    hit = [k for k, f in enumerate(fs) if parity(edges(f), q)]
    return min(hit, key=lambda k: abs(shoelace2(fs[k]))) if hit else None


def beside(wall, all_edges, left):
    """ a point beside the middle of the wall, nearer than anything else """
    a, b = wall
    m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
    d = min([seg_dist(c, e, m) for c, e in all_edges if {c, e} != {a, b}] + [dist(a, b)])
    l = dist(a, b)
    d = min(d / 4., l / 20.)
    if d < 1000:
        return None
    s = 1 if left else -1
    return (m[0] - int(s * d * (b[1] - a[1]) / l), m[1] + int(s * d * (b[0] - a[0]) / l))
