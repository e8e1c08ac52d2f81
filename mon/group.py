# -*- coding: utf-8 -*-
""" groups of polylines seen as graphs, lines and spheres, copies and textual forms: G16 - G18 """
import copy
import math
from fractions import Fraction as F
from common import *
import gen
from geometry.SR_point import Point
from geometry.SR_line import LineSegment
from geometry.SR_polygon import PolygonLine, polygon_from_nodes
from geometry.SR_polygon_group import PolygonGroup
from geometry.additional_stuff import sphere_line_intersection
from SR_Vessel.SR_hauptteile import Wall, NonWall


def state(p):
    return [(s.i.xy, s.j.xy) for s in p.segments]


# --------------------------------------------------------------------------------------------------------------------
# G16 graph views

def r_group(rng):
    """ polylines between the points of a lattice, no connection of two points twice """
    n = rng.choice([2, 3, 4, 6])
    u = rng.choice([1, .5, .125, 1000, .1])
    ox, oy = rng.choice([0, -3, 10, 250]), rng.choice([0, -7, 100])
    at = lambda p: (round(ox + p[0] * u, 6), round(oy + p[1] * u, 6))
    used = set()
    lines = []
    for _ in range(rng.randint(1, 7)):
        p = rng.randrange(n), rng.randrange(n)
        nodes = [p]
        for _ in range(rng.choice([1, 1, 2, 3, 4, 8])):
            q = rng.randrange(n), rng.randrange(n)
            if rng.random() < .25 and len(nodes) > 2:
                q = nodes[0]
            if q == nodes[-1] or frozenset((q, nodes[-1])) in used:
                continue
            used.add(frozenset((q, nodes[-1])))
            nodes.append(q)
        if len(nodes) > 1:
            lines.append([at(p) for p in nodes])
    if not lines:
        raise Skip()
    return lines


def line(nodes, rng):
    """ segments in order, with points of their own or shared ones """
    if rng.random() < .5:
        return PolygonLine([LineSegment(Point(a), Point(b)) for a, b in zip(nodes, nodes[1:])])
    ps = [Point(p) for p in nodes]
    return PolygonLine([LineSegment(a, b) for a, b in zip(ps, ps[1:])])


def f_graph(rng, rec, tier):
    lines = r_group(rng)
    rec.desc = lines
    rec.sig(lines)
    polys = [line(l, rng) for l in lines]
    if rng.random() < .3:
        polys = [PolygonLine([s.line_reversed for s in p.segments[::-1]]) if rng.random() < .5 else p for p in polys]
    before = [state(p) for p in polys]
    es = [e for b in before for e in b]
    G = PolygonGroup(tuple(polys) if rng.random() < .5 else polys)
    rec.eq([state(p) for p in G.polygons], before, 'members', lines, 'same')
    rec.eq([(s.i.xy, s.j.xy) for s in G.all_segments], es, 'members', lines, 'segments')
    rec.eq(sorted(state(G.representative_graph)), sorted(es), 'members', lines, 'graph')
    pts = {p for e in es for p in e}
    num = G.points_numbered
    xy = {k.xy: v for k, v in num.items()}
    rec.expect(set(xy) == pts and len(num) == len(pts), 'numbered', 'points', lambda: 'got %s, expected the points %s' % (num, sorted(pts)))
    rec.eq(sorted(xy.values()), list(range(len(pts))), 'numbered', lines, 'numbers')
    if any(a[0] == b[0] for a in pts for b in pts if a is not b):
        rec.ok('numbered', 'same x')
    rec.eq(sorted(G.as_edgelist), sorted((xy[a], xy[b]) for a, b in es), 'edgelist', lines, 'edges')
    nb = {p: sorted([b for a, b in es if a == p] + [a for a, b in es if b == p]) for p in pts}
    al = G.as_adjacency_list()
    rec.expect({k.xy: sorted(x.xy for x in v) for k, v in al.items()} == nb, 'adjacency', 'points', lambda: 'got %s, expected %s' % (al, nb))
    an = G.as_adjacency_list(as_numbered=True)
    rec.eq({k: sorted(v) for k, v in an.items()}, {xy[p]: sorted(xy[q] for q in v) for p, v in nb.items()}, 'adjacency', lines, 'numbers')
    for p in rng.sample(sorted(pts), min(3, len(pts))):
        d = G.node_degree(_al=an, node=xy[p])
        rec.eq(d, len(nb[p]), 'degree', (p, lines))
    rec.expect(rejected(G.node_degree, an, len(pts) + 5), 'degree', 'refused', lines)
    # the polylines found by points
    sel = rng.sample(sorted(pts), rng.randint(0, len(pts)))
    got = G.segments_from_points([Point(p) for p in sel])
    want = [b for b in before if any(i in sel and j in sel for i, j in b)]
    rec.eq(sorted(state(p) for p in got), sorted(want), 'by-points', (sel, lines), bool(want))
    # the polylines found by equality
    k = rng.randrange(len(polys))
    same = [p for p in before if p == before[k]]
    if len(same) == 1:
        got = G.polygon_from_repr(copy.deepcopy(polys[k]))
        rec.expect(got is polys[k], 'by-equality', 'found', lambda: '%s for %s' % (got, lines))
    rec.expect(rejected(G.polygon_from_repr, PolygonLine([LineSegment(Point((1e4, 1)), Point((2, -1e4)))])), 'by-equality', 'refused', lines)
    # the documented degrees of the nodes of a valid group
    deg = [len(v) for v in nb.values()]
    want = min(deg) > 1 and deg.count(2) >= 3 and deg.count(3) % 2 == 0 and max(deg) < 4
    if max(deg) < 10:
        if want:
            want = all(p.isvalid for p in polys)
        rec.eq(bool(G.isvalid), want, 'valid', lines)
    rec.eq([state(p) for p in polys], before, 'operands', lines, 'unchanged')


def f_theta(rng, rec, tier):
    """ valid groups: a cycle, perhaps with a wall across, cut into polylines """
    n = rng.randint(3, 9)
    pts, seen = [], set()
    while len(pts) < n:
        a = 2 * math.pi * (len(pts) + rng.uniform(.1, .9)) / n
        pts.append((round(30 * math.cos(a), 3), round(20 * math.sin(a), 3)))
    walls = []
    k = sorted(rng.sample(range(n), rng.randint(2, min(n, 4))))
    for a, b in zip(k, k[1:] + [k[0] + n]):
        walls.append([pts[i % n] for i in range(a, b + 1)])
    what = 'cycle'
    if n > 4 and len(k) == 2 and 1 < k[1] - k[0] < n - 1:
        what = 'theta'
        walls.append([pts[k[0]], (round((pts[k[0]][0] + pts[k[1]][0]) / 2 + .5, 3), round((pts[k[0]][1] + pts[k[1]][1]) / 2 - .25, 3)), pts[k[1]]])
    elif rng.random() < .3:
        what = 'loose'
        walls.append([pts[k[0]], (100, 100)])
    rec.desc = walls
    rec.sig(walls)
    polys = [line(w, rng) for w in walls]
    if not all(p.isvalid for p in polys):
        raise Skip()
    G = PolygonGroup(polys)
    d2 = n if what == 'cycle' else n - 2 + 1 if what == 'theta' else 0
    rec.eq(bool(G.isvalid), what != 'loose' and d2 >= 3, 'valid', walls, what)


# --------------------------------------------------------------------------------------------------------------------
# G17 lines and spheres

def f_sphere(rng, rec, tier):
    kind = rng.choice(['random', 'random', 'tangent', 'tangent', 'through', 'pythagoras'])
    R = lambda m=20: rng.randint(-m, m)
    c = (R(), R(), R())
    q = 1
    if kind == 'tangent':
        # a line in a tangential plane, the point of contact at a half or a whole parameter
        r = rng.randint(1, 20)
        ax, sg = rng.randrange(3), rng.choice([1, -1])
        t = list(c)
        t[ax] += sg * r
        d = [R(6), R(6), R(6)]
        d[ax] = 0
        if not any(d):
            d[(ax + 1) % 3] = 3
        k = rng.randint(-3, 3)
        a = [t[i] - k * d[i] for i in range(3)]
        m = rng.choice([1, 2, 4, -2])
        b = [a[i] + m * d[i] for i in range(3)]
    elif kind == 'pythagoras':
        r = 5 * rng.choice([1, 2, 4])
        f = r // 5
        a = [c[0] + 3 * f, c[1] + R(), c[2]]
        b = [a[0], a[1] + rng.choice([1, -2, 7]), a[2]]
    else:
        q = rng.choice([1, 1, 2, 8])
        r = rng.randint(1, 20)
        a, b = [R(30), R(30), R(30)], [R(30), R(30), R(30)]
        if kind == 'through':
            a, b = [c[i] + R(3) for i in range(3)], [c[i] + R(8) for i in range(3)]
        if a == b:
            raise Skip()
    q *= rng.choice([1, 1, 1, 128, 2. ** 13, 2. ** -8])  # all the sizes; powers of two, so that everything stays exact
    a, b, c, r = [x / q for x in a], [x / q for x in b], [x / q for x in c], r / q
    args = [tuple(a), tuple(b), tuple(c), r]
    rec.desc = args
    rec.sig(args)
    A, B, C, r_ = [F(x) for x in a], [F(x) for x in b], [F(x) for x in c], F(r)
    D = [y - x for x, y in zip(A, B)]
    W = [x - y for x, y in zip(A, C)]
    aa = sum(x * x for x in D)
    bb = 2 * sum(x * y for x, y in zip(D, W))
    cc = sum(x * x for x in W) - r_ * r_
    disc = bb * bb - 4 * aa * cc
    got = sphere_line_intersection(*args)
    rec.expect(args == [tuple(a), tuple(b), tuple(c), r], 'operands', None, args)
    rec.expect(len(got) == 2, 'count', None, lambda: 'got %r for %r' % (got, args))
    pts = [p for p in got if p is not None]
    n = 0 if disc < 0 else 1 if disc == 0 else 2
    rec.eq(len(pts), n, 'count', args, n)
    mus = [] if n == 0 else [float(-bb / (2 * aa))] if n == 1 else [(-float(bb) + s * math.sqrt(float(disc))) / (2 * float(aa)) for s in (1, -1)]
    want = [tuple(float(A[i]) + mu * float(D[i]) for i in range(3)) for mu in mus]
    scale = 1e-7 * max(list(map(abs, a + b + c)) + [1. / q])
    left = list(want)
    for p in pts:
        f = [w for w in left if all(abs(x - y) <= scale for x, y in zip(p, w))]
        rec.expect(bool(f), 'points', n, lambda: 'got %r, expected %r for %r' % (got, want, args))
        left.remove(f[0])
        rec.near(math.sqrt(sum((x - y) ** 2 for x, y in zip(p, c))), r, scale * 10, 'on-sphere', args)


# --------------------------------------------------------------------------------------------------------------------
# G18 textual forms and copies

ENV = dict(Point=Point, LineSegment=LineSegment, PolygonLine=PolygonLine, PolygonGroup=PolygonGroup, Wall=Wall, NonWall=NonWall)


def f_repr(rng, rec, tier):
    g = gen.Grid(rng)
    pts = [g.pt() for _ in range(rng.randint(2, 7))]
    if any(a == b for a, b in zip(pts, pts[1:])):
        raise Skip()
    rec.desc = pts
    rec.sig(pts)
    P = Point(pts[0])
    Q = eval(repr(P), ENV)
    rec.expect(Q == P and Q.xy == P.xy, 'repr', 'Point', lambda: '%r' % P)
    rec.eq(str(P), repr(P), 'str', pts, 'Point')
    cls = rng.choice([LineSegment, LineSegment, Wall, NonWall])
    S = cls(Point(pts[0]), Point(pts[1]))
    T = eval(repr(S), ENV)
    rec.expect(T == S and type(T) is cls and (T.i.xy, T.j.xy) == (S.i.xy, S.j.xy), 'repr', cls.__name__, lambda: '%r' % S)
    rec.eq(str(S), repr(S), 'str', pts, cls.__name__)
    L = PolygonLine([rng.choice([LineSegment, Wall, NonWall])(Point(a), Point(b)) for a, b in zip(pts, pts[1:])])
    M = eval(repr(L), ENV)
    rec.expect(M == L and [type(s) for s in M.segments] == [type(s) for s in L.segments], 'repr', 'PolygonLine', lambda: '%r' % L)
    G = PolygonGroup([L, PolygonLine([LineSegment(Point((1, 2)), Point((3, 4)))])])
    rec.expect(eval(repr(G), ENV).polygons == G.polygons, 'repr', 'PolygonGroup', lambda: '%r' % G)
    for bad in (Point(), LineSegment(), LineSegment(Point((1, 2)), Point())):
        rec.expect(not bad.isvalid and str(bad) != repr(bad) and type(bad).__name__ in str(bad), 'str', 'not valid', lambda: str(bad))
    # different things are not equal
    o = [LineSegment, Wall, NonWall]
    o.remove(cls)
    rec.expect(S != rng.choice(o)(Point(pts[0]), Point(pts[1])), 'kinds', cls.__name__, lambda: '%r' % S)


def change(rng, p):
    k = rng.choice(['move', 'rotate', 'turn', 'mirror', 'append', 'close'])
    if k == 'move':
        p.move(x0=rng.choice([1, -3.5]), y0=rng.choice([2, -.25]))
    elif k == 'rotate':
        p.rotate_about_origin(phi=rng.choice([30, 90, 200]))
    elif k == 'turn':
        p.rotate_about_xy(x0=1, y0=2, phi=rng.choice([30, 90, 200]))
    elif k == 'mirror':
        p.mirror_vertical(x0=rng.choice([0, 5]))
    elif k == 'append':
        p.append_point_at_end(Point((123.5, -45.25)))
    else:
        p.close()
    return k


def f_copy(rng, rec, tier):
    """ a copy is equal, and what happens to the one does not happen to the other """
    pts, name = gen.simple_polygon(rng, nmax=8)
    k = rng.choice([len(pts), len(pts) + 1])
    nodes = (pts + pts)[:k]
    P = polygon_from_nodes(nodes)
    if rng.random() < .3:
        P.purge()
    tri = k == len(pts) + 1 and rng.random() < .3
    if tri:
        P.triangulate()
    want = state(P)
    nt = len(P.triangles)
    rec.desc = name, nodes
    rec.sig(nodes)
    segs = P.segments
    Q = copy.deepcopy(P)
    rec.expect(Q == P and state(Q) == want, 'copy', 'equal', lambda: '%s' % nodes)
    rec.eq(len(Q.triangles), nt, 'copy', nodes, 'triangles')
    ops = [change(rng, Q) for _ in range(rng.randint(1, 3))]
    rec.eq(state(P), want, 'independent', (ops, nodes), 'original')
    rec.eq(len(P.triangles), nt, 'independent', (ops, nodes), 'triangles')
    got = state(Q)
    ops2 = [change(rng, P) for _ in range(rng.randint(1, 3))]
    rec.eq(state(Q), got, 'independent', (ops2, nodes), 'copy')
    # the list a polyline was made of is not the polyline
    l = [LineSegment(Point(a), Point(b)) for a, b in zip(nodes, nodes[1:])]
    n = len(l)
    L = PolygonLine(l)
    L.append_point_at_end(Point((777.5, 3)))
    rec.expect(len(l) == n and len(L.segments) == n + 1, 'own-list', None, lambda: '%s' % nodes)


PROPS = {
    'G16': dict(families=[('graph', 4, f_graph), ('theta', 1, f_theta)]),
    'G17': dict(families=[('sphere', 1, f_sphere)]),
    'G18': dict(families=[('repr', 1, f_repr), ('copy', 1, f_copy)]),
}
