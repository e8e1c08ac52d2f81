# -*- coding: utf-8 -*-
""" polygonlines: G06 - G15 """
import math
import copy
import itertools
from common import *
from oracle import Pair, on_line, side, in_box, same, angle_deg
import gen
from gen import simple_polygon, Grid, hull
from geometry.SR_point import Point, IntexPoint, distance
from geometry.SR_line import LineSegment
from geometry import SR_polygon
from geometry.SR_polygon import (PolygonLine, Triangle, polygon_from_nodes, square, arc, add, convex_hull, walk_segments,
                                 remove_collinear_points, remove_outlier_segments, simplify, intersecting_lines)


def closed(pts):
    p = polygon_from_nodes(pts)
    p.close()
    return p


def loose_closed(pts, rng):
    """ every segment with its own points; any order and direction """
    es = edges(pts)
    rng.shuffle(es)
    return PolygonLine([LineSegment(Point(a), Point(b)) if rng.random() < .5 else LineSegment(Point(b), Point(a)) for a, b in es])


def separate(pts):
    """ in order, every segment with its own points """
    return PolygonLine([LineSegment(Point(a), Point(b)) for a, b in edges(pts)])


def state(p):
    return [(s.i.xy, s.j.xy) for s in p.segments]


def make(rng, pts):
    """ some representation of the closed polygon; in order """
    k = rng.randrange(3)
    if k == 0:
        return closed(pts), 'shared'
    if k == 1:
        return separate(pts), 'separate'
    return polygon_from_nodes(pts + pts[:1]), 'nodes'


def polygon(rng, small=.12, **kw):
    """ a simple polygon, perhaps a very small one: extents of about a unit, details of less than a thousandth of it """
    if rng.random() < small:
        f = rng.choice([16., 64., 128., 256.])
        pts, name = simple_polygon(rng, grid=Grid(rng, names=('int', 'half', 'quarter') if f < 256 else ('int',)), **kw)
        pts = [(round(x / f, 8), round(y / f, 8)) for x, y in pts]
        if len({ipt(p) for p in pts}) < len(pts) or not is_simple([ipt(p) for p in pts]) or clearance(pts) < 2e-4:
            raise Skip()
        return pts, name + '/%d' % f
    return simple_polygon(rng, **kw)


def bdist(ip, ipts):
    return min(seg_dist(a, b, ip) for a, b in edges(ipts))


# --------------------------------------------------------------------------------------------------------------------
# G06 containment

def query_points(rng, pts, n):
    """ points on, near to, inside and outside of the polygon """
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    w, h = x1 - x0, y1 - y0
    e = edges(pts)
    out = []
    for _ in range(n):
        k = rng.randrange(10)
        a, b = rng.choice(e)
        if k == 0:  # a vertex
            q = a
        elif k == 1:  # on an edge
            f = rng.choice([2, 4, 8])
            t = rng.randint(1, f - 1)
            q = a[0] + (b[0] - a[0]) * t / f, a[1] + (b[1] - a[1]) * t / f
        elif k in (2, 3):  # beside an edge
            d = rng.choice([1e-4, 1e-3, 1e-2]) * rng.choice([1, -1])
            t = rng.uniform(0, 1)
            l = dist(a, b)
            q = a[0] + (b[0] - a[0]) * t - d * (b[1] - a[1]) / l, a[1] + (b[1] - a[1]) * t + d * (b[0] - a[0]) / l
        elif k == 4:  # beside a vertex
            an = rng.uniform(0, 2 * math.pi)
            d = rng.choice([1e-4, 1e-3, 1e-2])
            q = a[0] + d * math.cos(an), a[1] + d * math.sin(an)
        elif k == 5:  # in line with vertices
            q = (rng.choice(xs), rng.choice(ys))
        elif k == 6:  # on the extension of an edge
            t = rng.choice([-2, -1, -.5, 1.5, 2, 3])
            q = a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t
        elif k == 7:  # outside, in every direction
            q = rng.choice([x0 - w, x1 + w, (x0 + x1) / 2, x0 - 10 * w, x1 + 60 * w]), rng.choice([y0 - h, y1 + h, (y0 + y1) / 2, y0 - 9 * h])
        else:
            q = rng.uniform(x0 - w * .1, x1 + w * .1), rng.uniform(y0 - h * .1, y1 + h * .1)
        out.append((round(q[0], 8), round(q[1], 8)))
    return out


def judge_contains(rec, poly, ies, q, ctx):
    """ exact even-odd rule on the integer edges ies """
    ip = ipt(q)
    d = min(seg_dist(a, b, ip) for a, b in ies)
    onb = any(on_seg(a, b, ip) for a, b in ies)
    if not onb and d < 2500:
        rec.skip('inside')
        return
    p = Point(q)
    b = poly.is_on_boundary(p=p)
    rec.expect(b is onb, 'boundary', onb, lambda: 'got %s, expected %s for point %r of %s' % (b, onb, q, ctx))
    want = False if onb else parity(ies, ip)
    got = poly.is_internal_point(p=p)
    rec.expect(got is want, 'inside', 'boundary' if onb else want, lambda: 'got %s, expected %s for point %r of %s' % (got, want, q, ctx))
    if not onb:
        ext = poly.is_external_point(p=p)
        rec.expect(ext is not want, 'outside', not want, lambda: 'got %s for point %r of %s' % (ext, q, ctx))


def f_contain(rng, rec, tier):
    pts, name = polygon(rng, nmax=rng.choice([6, 12, 24]))
    k = rng.randrange(4)
    if k == 0:
        P, how = loose_closed(pts, rng), 'scrambled'
    else:
        P, how = make(rng, pts)
    rec.desc = name, how, pts
    rec.sig(pts)
    before = state(P)
    ies = edges([ipt(p) for p in pts])
    for q in query_points(rng, pts, 14):
        judge_contains(rec, P, ies, q, '%s %r' % (how, pts))
    rec.eq(state(P) == before, True, 'operands', pts)


def f_contain_moved(rng, rec, tier):
    """ the answers follow the polygon when it is moved, rotated, mirrored between the questions """
    pts, name = polygon(rng, nmax=10)
    P, how = make(rng, pts)
    rec.desc = name, how, pts
    rec.sig(pts)
    log = []
    for _ in range(3):
        for q in query_points(rng, [s.i.xy for s in P.segments], 4):
            judge_contains(rec, P, [(ipt(s.i.xy), ipt(s.j.xy)) for s in P.segments], q, '%s %r %s' % (how, pts, log))
        k = rng.randrange(3)
        x, y = rng.randint(-400, 400) / 8., rng.randint(-400, 400) / 8.
        if k == 0:
            P.move(x0=x, y0=y)
        elif k == 1:
            P.rotate_about_xy(x0=x, y0=y, phi=rng.choice([90, 180, 30, 17.5, -45]))
        else:
            P.mirror_vertical(x0=x)
        log.append((k, x, y))


# --------------------------------------------------------------------------------------------------------------------
# G07 orientation and convexity

def f_orient(rng, rec, tier):
    pts, name = polygon(rng, nmax=rng.choice([5, 10, 20]))
    P, how = make(rng, pts)
    rec.desc = name, how, pts
    rec.sig(pts)
    ip = [ipt(p) for p in pts]
    cw = shoelace2(ip) < 0
    turns = [cross(ip[k - 2], ip[k - 1], ip[k]) for k in range(len(ip))]
    convex = all(t >= 0 for t in turns) or all(t <= 0 for t in turns)
    rec.eq(P.iscw, cw, 'cw', pts)
    rec.eq(P.isccw, not cw, 'ccw', pts)
    # a turn that is too flat to be told from a straight line is not judged
    L = [dist(ip[k - 1], ip[k]) for k in range(len(ip))]
    if all(t == 0 or abs(t) > 1e-6 * L[k - 1] * L[k] for k, t in enumerate(turns)):
        rec.eq(P.isconvex, convex, 'convex', pts)
    R = closed(pts[:1] + pts[1:][::-1])
    rec.eq(R.iscw, not cw, 'reversed', pts)
    # the start does not matter
    k = rng.randrange(len(pts))
    rec.eq(closed(pts[k:] + pts[:k]).iscw, cw, 'start', pts)
    M = closed(pts)
    M.mirror_vertical(x0=rng.randint(-8, 8) / 4.)
    rec.eq(M.iscw, not cw, 'mirrored', pts)
    rec.eq(M.isccw, cw, 'mirrored', pts)


# --------------------------------------------------------------------------------------------------------------------
# G08 area and triangulation

def heron_tol(tris):
    """ what the rounding may cost in the sum of the areas calculated from the side lengths """
    tol = 2e-8
    for t in tris:
        a, b, c = sorted(dist(*e) for e in edges(t))
        s = (a + b + c) / 2
        A = abs(area_f(t))
        M = max(map(abs, itertools.chain(*t)))
        gap = max(s - c, 1e-14)
        tol += 1e-13 * A + A * 8e-16 * (s + M) / gap + 1e-12
    return tol


def tri_pts(t):
    return [s.i.xy for s in t.segments]


def judge_partition(rec, P, pts, ctx):
    """ the triangles of P are a partition of the polygon """
    ip = [ipt(p) for p in pts]
    vs = set(ip)
    tris = [tri_pts(t) for t in P.triangles]
    A2 = abs(shoelace2(ip))
    it = [[ipt(p) for p in t] for t in tris]
    for t in it:
        rec.expect(all(v in vs for v in t), 'vertices', None, lambda: 'triangle %r has other points than %s' % (t, ctx))
        if shoelace2(t) < 0:
            t.reverse()
        rec.expect(shoelace2(t) > 0, 'positive', None, lambda: 'flat triangle %r in %s' % (t, ctx))
    rec.eq(len(it), len(pts) - 2, 'count', ctx, 'n-2')
    rec.expect(sum(shoelace2(t) for t in it) == A2, 'sum', None, lambda: 'the triangles cover %r, the polygon %r: %s' % (sum(shoelace2(t) for t in it), A2, ctx))
    for s, t in itertools.combinations(it, 2):
        # interiors disjoint: an edge of one of them separates
        sep = any(all(cross(a, b, q) <= 0 for q in o) for u, o in ((s, t), (t, s)) for a, b in edges(u))
        if not sep:
            rec.fail('overlap', 'triangles %r and %r overlap in %s' % (s, t, ctx))
    rec.ok('overlap', 'none')
    es = edges(ip)
    for t in it:
        c = (sum(v[0] for v in t), sum(v[1] for v in t))
        rec.expect(parity([((3 * a[0], 3 * a[1]), (3 * b[0], 3 * b[1])) for a, b in es], c), 'inside', None, lambda: 'triangle %r is not inside of %s' % (t, ctx))
    return tris


def well_shaped(pts):
    """ no triangle of vertices that is so flat that its points cannot be told from being collinear """
    ip = [ipt(p) for p in pts]
    n = len(ip)
    for a, b, c in itertools.combinations(ip, 3):
        x = abs(cross(a, b, c))
        if x and x < 1e-3 * SC * max(dist(a, b), dist(b, c), dist(a, c)):
            return False
    return True


def f_area(rng, rec, tier):
    pts, name = polygon(rng, nmax=rng.choice([4, 8, 14]), small=.3)
    if not well_shaped(pts):
        raise Skip()
    k = rng.randrange(4)
    if k == 0:
        P, how = loose_closed(pts, rng), 'scrambled'
    else:
        P, how = make(rng, pts)
    rec.desc = name, how, pts
    rec.sig(pts)
    before = state(P)
    want = abs(area_f(pts))
    ctx = '%s %r' % (how, pts)
    if rng.random() < .5:
        P.triangulate(force=rng.random() < .5)
        tris = judge_partition(rec, P, pts, ctx)
        A = P.area
    else:
        A = P.area
        tris = judge_partition(rec, P, pts, ctx)
    tol = heron_tol(tris) + 1e-12 * want
    rec.near(A, want, tol, 'area', ctx)
    rec.near(P.area, want, tol, 'area', ctx)
    da = P.detailled_area
    rec.near(da['triangle'], want, tol, 'area', ctx)
    # asking again does not add triangles
    P.triangulate()
    rec.eq(len(P.triangles), len(pts) - 2, 'count', ctx, 'again')
    P.triangulate(force=True)
    judge_partition(rec, P, pts, ctx)
    rec.eq(state(P) == before, True, 'operands', pts)


# --------------------------------------------------------------------------------------------------------------------
# G09 triangles

def r_tri(rng, g):
    for _ in range(50):
        t = [g.pt() for _ in range(3)]
        it = [ipt(p) for p in t]
        x = abs(cross(*it))
        if x and x > .02 * SC * max(dist(*e) for e in edges(it)):
            if min(dist(*e) for e in edges(t)) >= .1:
                return t
    raise Skip()


def mk_tri(t, rng):
    es = edges(t)
    rng.shuffle(es)
    if rng.random() < .5:
        P = [Point(p) for p in t]
        d = dict(zip(t, P))
    else:
        d = None
    segs = []
    for a, b in es:
        if rng.random() < .5:
            a, b = b, a
        segs.append(LineSegment(d[a], d[b]) if d else LineSegment(Point(a), Point(b)))
    return Triangle(segs)


def f_triangle(rng, rec, tier):
    g = Grid(rng)
    t = r_tri(rng, g)
    rec.desc = t
    rec.sig(t)
    T = mk_tri(t, rng)
    before = state(T)
    rec.expect(set(p.xy for p in T.point_set) == {(float(x), float(y)) for x, y in t} and len(T.segments) == 3, 'points', None, t)
    rec.eq(T.isclosed, True, 'closed', t)
    rec.eq(T.is_triangle, True, 'is-triangle', t)
    A = abs(area_f(t))
    rec.near(T.area, A, heron_tol([t]), 'area', t)
    want = sorted(angle_deg((b[0] - a[0], b[1] - a[1]), (c[0] - a[0], c[1] - a[1])) for a, b, c in itertools.permutations(t) if b < c)
    got = sorted(T.angles)
    rec.expect(len(got) == 3 and all(abs(x - y) < 1e-5 for x, y in zip(got, want)), 'angles', None, lambda: 'got %r, expected %r for %r' % (got, want, t))
    rec.near(sum(got), 180, 2e-5, 'angle-sum', t)
    rec.near(T.quality, sum(abs(x - 60) for x in want), 3e-5, 'quality', t)
    rec.expect(set(p.xy for p in T.point_set) == {(float(x), float(y)) for x, y in t}, 'points', 'unchanged', t)
    rec.eq(state(T), before, 'operands', t, 'unchanged')
    P = closed(t)
    rec.eq(P.is_triangle, True, 'is-triangle', t)
    # refused: collinear points
    a, b = t[0], t[1]
    c = (2 * b[0] - a[0], 2 * b[1] - a[1])
    m = T.midpoint
    rec.expect(near_pt(m.xy, (sum(p[0] for p in t) / 3., sum(p[1] for p in t) / 3.), 2e-8), 'midpoint', None, t)


def tri_interiors_meet(s, t):
    """ exact """
    s, t = list(s), list(t)
    if shoelace2(s) < 0:
        s.reverse()
    if shoelace2(t) < 0:
        t.reverse()
    return not any(all(cross(a, b, q) <= 0 for q in o) for u, o in ((s, t), (t, s)) for a, b in edges(u))


def f_two_triangles(rng, rec, tier):
    g = Grid(rng, names=('int', 'half', 'quarter', 'dec1', '64th'))
    s = r_tri(rng, g)
    k = rng.randrange(6)
    if k <= 1:
        t = r_tri(rng, g)
    elif k == 2:  # common edge
        t = [s[0], s[1], g.pt()]
    elif k == 3:  # common point
        t = [s[rng.randrange(3)], g.pt(), g.pt()]
    elif k == 4:  # same
        t = list(s)
        rng.shuffle(t)
    else:  # part of an edge in common
        a, b = s[0], s[1]
        f = lambda u: (round(a[0] + (b[0] - a[0]) * u, 6), round(a[1] + (b[1] - a[1]) * u, 6))
        u = rng.choice([(.25, .75), (.5, 1), (-.5, .5), (0, 2), (1, 2), (1.5, 2), (-1, 2)])
        t = [f(u[0]), f(u[1]), g.pt()]
    i_s, i_t = [ipt(p) for p in s], [ipt(p) for p in t]
    if len(set(i_t)) < 3 or abs(cross(*i_t)) < .02 * SC * max(dist(*e) for e in edges(i_t)):
        raise Skip()
    # relations within the numerical tolerance are not judged; vertices on the edges of the other one only if exact
    vv = ve = False
    for u, o in ((i_s, i_t), (i_t, i_s)):
        for p in u:
            if p in o:
                vv = True
                continue
            for a, b in edges(o):
                if on_seg(a, b, p):
                    ve = True
                elif seg_dist(a, b, p) < 1e-3 * SC:
                    raise Skip()
    rec.desc = s, t
    rec.sig(rec.desc)
    S, T = mk_tri(s, rng), mk_tri(t, rng)
    bs, bt = state(S), state(T)
    eqv = set(i_s) == set(i_t)
    meet = tri_interiors_meet(i_s, i_t)
    strictly = lambda o, p: parity(edges(o), p) and not any(on_seg(a, b, p) for a, b in edges(o))
    enc = all(strictly(i_s, p) for p in i_t)
    B = lambda x: bool(x)
    ctx = '%r and %r' % (s, t)
    for X, Y, e in ((S, T, enc), (T, S, all(strictly(i_t, p) for p in i_s))):
        rec.eq(B(X.congruent(Y)), eqv, 'congruent', ctx)
        rec.eq(B(X.enclosed(Y)), e, 'enclosed', ctx)
        if not meet:
            # only the boundaries meet: along a line, in a point, or not at all
            line = any(Pair(*(a + b)).common() and Pair(*(a + b)).common()[0] == 'segment' for a in edges(s) for b in edges(t))
            if Pair(*(s[0], s[1], t[0], t[1])).common() is None:
                rec.skip('overlap')
                continue
            rec.eq(B(X.overlap(Y)), False, 'overlap', ctx)
            rec.eq(B(X.touch(Y)), line, 'touch', ctx)
            rec.eq(B(X.disjunct(Y)), not line, 'disjunct', ctx)
        elif eqv:
            rec.eq(B(X.disjunct(Y)), False, 'disjunct', ctx)
        elif not ve:
            rec.eq(B(X.overlap(Y)), True, 'overlap', ctx)
            rec.eq(B(X.disjunct(Y)), False, 'disjunct', ctx)
        else:
            rec.skip('overlap')
    rec.eq((state(S), state(T)) == (bs, bt), True, 'operands', ctx)


def f_disjunct(rng, rec, tier):
    """ two triangulated polygons """
    g = Grid(rng, names=('int', 'half', 'quarter', 'dec1', '64th'))
    a, _ = simple_polygon(rng, nmax=7, grid=g)
    b, _ = simple_polygon(rng, nmax=7, grid=g)
    ext = g.n * g.u
    k = rng.choice([0, .3, .6, 1, 1.1])
    an = rng.choice([(1, 0), (0, 1), (1, 1), (-1, .5)])
    off = round(k * ext * an[0] * 64) / 64., round(k * ext * an[1] * 64) / 64.
    b = [(round(x + off[0], 6), round(y + off[1], 6)) for x, y in b]
    if not (well_shaped(a) and well_shaped(b)):
        raise Skip()
    ia, ib = [ipt(p) for p in a], [ipt(p) for p in b]
    for u, o in ((ia, ib), (ib, ia)):
        for p in u:
            if min(seg_dist(x, y, p) for x, y in edges(o)) < .01 * SC:
                raise Skip()
    rec.desc = a, b
    rec.sig(rec.desc)
    A, B = closed(a), closed(b)
    meet = any(segs_meet(p, q, r, s) for p, q in edges(ia) for r, s in edges(ib)) or parity(edges(ia), ib[0]) or parity(edges(ib), ia[0])
    A.triangulate()
    B.triangulate()
    # triangles of the one whose vertices are on the diagonals of the other are beyond what the test can tell
    for s in A.triangles:
        for t in B.triangles:
            for u, o in ((tri_pts(s), tri_pts(t)), (tri_pts(t), tri_pts(s))):
                for p in u:
                    for x, y in edges(o):
                        if seg_dist(x, y, p) < 1e-3:
                            raise Skip()
    rec.eq(A.disjunct(B), not meet, 'polygons-disjunct', rec.desc)
    rec.eq(B.disjunct(A), not meet, 'polygons-disjunct', rec.desc)


# --------------------------------------------------------------------------------------------------------------------
# G10 histories of operations

def f_history(rng, rec, tier):
    """ operations and questions in any order, against a model: the list of coordinates """
    pts, name = simple_polygon(rng, nmax=9, grid=Grid(rng, far=False) if rng.random() < .7 else None)
    if not well_shaped(pts):
        raise Skip()
    kind = rng.choice(['closed', 'closed', 'open', 'arcopen'])
    model = [tuple(map(float, p)) for p in pts]
    how = 'closed'
    isopen = kind != 'closed'
    if not isopen:
        P, how = make(rng, pts)
    else:
        # an open chain of the first points; the rest is appended on the way
        k = rng.randint(2, len(pts))
        P = polygon_from_nodes(pts[:k])
        model, rest = model[:k], model[k:]
        how = 'open'
    log = [how]
    rec.desc = name, pts, log
    tol = 2e-8
    size = max(max(map(abs, p)) for p in pts)
    area0 = abs(area_f(pts))
    for step in range(rng.randint(3, 9)):
        ops = ['move', 'rotate', 'rotxy', 'mirror', 'ask', 'area', 'tri', 'copy', 'contain']
        if isopen:
            ops += ['end', 'end', 'begin', 'close']
        op = rng.choice(ops)
        x, y = rng.randint(-800, 800) / 8., rng.randint(-800, 800) / 8.
        phi = rng.choice([90, 180, 270, -90, 30, 45, 12.25, 360, 0, 210])
        if op == 'move':
            P.move(x0=x, y0=y)
            model = [(a + x, b + y) for a, b in model]
            log.append((op, x, y))
            tol += 1e-8
        elif op in ('rotate', 'rotxy'):
            c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
            if op == 'rotate':
                x = y = 0.
                P.rotate_about_origin(phi=phi)
            else:
                P.rotate_about_xy(x0=x, y0=y, phi=phi)
            model = [(x + (a - x) * c - (b - y) * s, y + (a - x) * s + (b - y) * c) for a, b in model]
            log.append((op, x, y, phi))
            tol = tol * 1.5 + 4e-8
        elif op == 'mirror':
            P.mirror_vertical(x0=x)
            model = [(2 * x - a, b) for a, b in model]
            log.append((op, x))
            tol += 1e-8
        elif op in ('end', 'begin') and rest:
            # the chain grows along the polygon, from either end
            if op == 'end':
                new = rest.pop(0)
            else:
                new = rest.pop()
            # where that point of the polygon is by now is not known to the code: any transformed point
            new = apply(log, new)
            if op == 'end':
                P.append_point_at_end(Point(new))
                model.append(new)
            else:
                P.append_point_at_beginning(Point(new))
                model.insert(0, new)
            log.append((op, new))
        elif op == 'close' and len(model) > 2:
            P.close()
            isopen = False
            log.append((op,))
            area0 = abs(shoelace2(model)) / 2.
            rec.eq(P.isclosed, True, 'closed', log, 'closed')
            P.close()
            rec.eq(len(P.segments), len(model), 'closed', log, 'again')
        elif op == 'area' and not isopen and is_simple([ipt(p) for p in model]):
            log.append((op,))
            if fat(model):
                P.triangulate()
                rec.near(P.area, abs(shoelace2(model)) / 2., 1e-6 + tol * 8 * size + heron_tol([tri_pts(t) for t in P.triangles]), 'area', log)
            else:
                rec.skip('area')
        elif op == 'tri' and not isopen and is_simple([ipt(p) for p in model]) and fat(model):
            log.append((op,))
            P.triangulate()
            vs = [p for p in model]
            got = [p for t in P.triangles for p in tri_pts(t)]
            rec.expect(got and all(any(near_pt(p, v, 2 * tol + 1e-7) for v in vs) for p in got), 'triangles', None, lambda: 'triangles %r do not belong to the polygon %r: %s' % (got, vs, log))
            A = sum(abs(area_f(tri_pts(t))) for t in P.triangles)
            rec.near(A, abs(shoelace2(model)) / 2., 1e-6 + tol * 8 * size + 1e-9 * abs(shoelace2(model)), 'triangles', log)
        elif op == 'copy':
            log.append((op,))
            Q = P.closed_copy() if len(model) > 2 else copy.deepcopy(P)
            R = copy.deepcopy(P)
            if len(model) > 2:
                rec.eq(Q.isclosed, True, 'closed-copy', log)
                rec.eq(len(Q.segments), len(model), 'closed-copy', log, 'count')
            Q.move(x0=3.25, y0=-1.5)
            if rng.random() < .5:  # the copy goes on, the original stays
                P, R = R, P
                R.move(x0=100., y0=1.)
        elif op == 'contain' and not isopen:
            log.append((op,))
            m = [s.i.xy for s in P.segments]
            if is_simple([ipt(p) for p in m]):
                for q in query_points(rng, m, 2):
                    judge_contains(rec, P, edges([ipt(p) for p in m]), q, log)
        elif op == 'ask':
            bb = P.bounding_box()
            rec.expect(all(abs(g - w) <= tol + 1e-8 for g, w in zip(bb[0] + bb[1], (min(p[0] for p in model), max(p[0] for p in model), min(p[1] for p in model), max(p[1] for p in model)))), 'box', None,
                       lambda: 'got %r for %r: %s' % (bb, model, log))
            for s, (a, b) in zip(P.segments, zip(model, model[1:] + model[:1])):
                v, l = (b[0] - a[0], b[1] - a[1]), dist(a, b)
                rec.expect(near_pt((s.delta_x, s.delta_y), v, 2 * tol) and near_pt(s.as_vector, v, 2 * tol) and abs(s.norm - l) <= 3 * tol, 'segments', None, lambda: '%s: expected %s, after %s' % (s, (a, b), log))
                if l > .1:
                    rec.expect(near_pt(s.unitvector, (v[0] / l, v[1] / l), 1e-7 + 6 * tol / l), 'segments', 'unit', lambda: '%s: unit vector %s, expected %s, after %s' % (s, s.unitvector, (a, b), log))
            if rng.random() < .5:
                P.purge()
        got = [s.i.xy for s in P.segments] + ([P.segments[-1].j.xy] if isopen else [])
        rec.expect(len(got) == len(model) and all(near_pt(g, w, tol) for g, w in zip(got, model)), 'coordinates', op, lambda: 'got %r, expected %r after %s' % (got, model, log))
        rec.expect(all(a.j == b.i for a, b in zip(P.segments, P.segments[1:])), 'connected', None, lambda: 'not connected any more after %s' % log)
        if not isopen:
            rec.expect(P.segments[-1].j == P.segments[0].i, 'connected', 'closed', lambda: 'not closed any more after %s' % log)
        if len(model) > 2 and not isopen:
            rec.near(abs(shoelace2(got)) / 2., area0, 1e-6 + tol * 8 * size + 1e-10 * area0, 'rigid', log)
    rec.sig(log)


def apply(log, p):
    """ the transformations of the log for a further point """
    for l in log[1:]:
        if l[0] == 'move':
            p = p[0] + l[1], p[1] + l[2]
        elif l[0] in ('rotate', 'rotxy'):
            _, x, y, phi = l
            c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
            p = x + (p[0] - x) * c - (p[1] - y) * s, y + (p[0] - x) * s + (p[1] - y) * c
        elif l[0] == 'mirror':
            p = 2 * l[1] - p[0], p[1]
    return p


def fat(model):
    """ no flat triangles of vertices: collinear points are not exactly collinear after a rotation """
    ip = [ipt(p) for p in model]
    return all(abs(cross(a, b, c)) > 1e-3 * SC * max(dist(a, b), dist(b, c), dist(a, c)) for a, b, c in itertools.combinations(ip, 3))


def f_area_again(rng, rec, tier):
    """ the area is asked for before and after the polygon changes """
    pts, name = polygon(rng, nmax=8)
    if not (well_shaped(pts) and fat(pts) and len(pts) > 3):
        raise Skip()
    # a polygon whose last vertex is appended later
    ip = [ipt(p) for p in pts]
    first = pts[:-1]
    if not is_simple(ip[:-1]) or clearance(first) < .05:
        raise Skip()
    rec.desc = name, pts
    rec.sig(pts)
    P = polygon_from_nodes(pts[:-1])
    P.close()
    A1 = abs(area_f(first))
    tol = 1e-6 + 1e-9 * A1
    rec.near(P.area, A1, tol + heron_tol([tri_pts(t) for t in P.triangles]), 'area', pts)
    n1 = len(P.triangles)
    x, y, phi = rng.randint(-40, 40) / 4., rng.randint(-40, 40) / 4., rng.choice([90, 30, 77])
    op = rng.choice(['move', 'rot', 'mirror'])
    if op == 'move':
        P.move(x0=x, y0=y)
    elif op == 'rot':
        P.rotate_about_origin(phi=phi)
    else:
        P.mirror_vertical(x0=x)
    m = [s.i.xy for s in P.segments]
    P.triangulate()
    rec.eq(len(P.triangles), n1, 'triangles', (op, pts), 'count')
    got = {p for t in P.triangles for p in tri_pts(t)}
    rec.expect(all(any(near_pt(p, q, 1e-7) for q in m) for p in got), 'triangles', op, lambda: 'triangles of the former position after %s: %r, %r' % (op, got, m))
    rec.near(P.area, A1, tol + 2e-6 + heron_tol([tri_pts(t) for t in P.triangles]), 'area', (op, pts))
    Q = polygon_from_nodes(pts[:-1])
    how = rng.choice(['triangulate', 'area', 'closed-before', 'between'])
    rejected(lambda: Q.collinear_points)
    if how == 'triangulate':
        Q.triangulate()
    elif how == 'area':  # whatever the answer is for an open chain
        rejected(lambda: Q.area)
    Q.append_point_at_end(Point(pts[-1]))
    if how == 'between':
        rejected(lambda: Q.area)
        rejected(lambda: Q.detailled_area)
    elif how == 'closed-before':
        rejected(lambda: Q.triangulate())
        rejected(lambda: Q.area)
    Q.close()
    A2 = abs(area_f(pts))
    rec.near(Q.area, A2, 1e-6 + 1e-9 * A2 + heron_tol([tri_pts(t) for t in Q.triangles]), 'area', ('append', how, pts))
    rec.near(Q.detailled_area['triangle'], A2, 1e-6 + 1e-9 * A2 + heron_tol([tri_pts(t) for t in Q.triangles]), 'area', ('append', how, pts))
    if how != 'triangulate':
        # a vertex within a straight part that comes last
        Q = polygon_from_nodes(pts)
        rejected(lambda: Q.collinear_points)
        m = tuple(round((x + y) / 2., 8) for x, y in zip(pts[-1], pts[0]))
        if ipt(m) == tuple((x + y) // 2 for x, y in zip(ipt(pts[-1]), ipt(pts[0]))) and (ipt(pts[-1])[0] + ipt(pts[0])[0]) % 2 == 0 == (ipt(pts[-1])[1] + ipt(pts[0])[1]) % 2:
            rejected(lambda: Q.detailled_area)
            Q.append_point_at_end(Point(m))
            Q.close()
            rec.eq({p.xy for p in Q.collinear_points[0]}, {tuple(map(float, m))}, 'collinear', pts)


# --------------------------------------------------------------------------------------------------------------------
# G11 validity of chains

def f_chain(rng, rec, tier):
    g = Grid(rng, names=('int', 'half', '64th', 'dec1', 'dec2', 'mm'))
    k = rng.randrange(5)
    if k == 0:  # a simple polygon or a part of it
        pts, _ = polygon(rng, nmax=10)
        if rng.random() < .5:
            pts = pts[:rng.randint(2, len(pts))]
        elif rng.random() < .7:
            pts = pts + pts[:1]
    elif k == 1:  # points on earlier edges
        pts = [g.pt() for _ in range(rng.randint(3, 5))]
        a, b = pts[0], pts[1]
        pts.append((round((a[0] + b[0]) / 2., 6), round((a[1] + b[1]) / 2., 6)))
        if rng.random() < .5:
            pts.append(g.pt())
    else:
        pts = [g.pt() for _ in range(rng.randint(2, 7))]
        if rng.random() < .3:
            pts.append(pts[0])
    es = list(zip(pts, pts[1:]))
    if not es or any(a == b for a, b in es):
        raise Skip()
    e = rng.choice([1e-4, 5e-4, 2e-3, 9e-3, .02]) * rng.choice([1, -1])
    slip = lambda p: (round(p[0] + e, 8), round(p[1] + rng.choice([0, e]), 8))
    if rng.random() < .12 and len(es) > 2 and pts[0] == pts[-1]:  # the end misses the start by a little
        es[-1] = es[-1][0], slip(es[-1][1])
    elif rng.random() < .1 and len(es) > 2:  # a little gap within
        j = rng.randrange(1, len(es))
        es[j] = slip(es[j][0]), es[j][1]
        if es[j][0] == es[j][1]:
            raise Skip()
    elif rng.random() < .3 and len(es) > 2:  # not continuous
        j = rng.randrange(len(es))
        if rng.random() < .5:
            es[j] = es[j][::-1]
        else:
            i = rng.randrange(len(es))
            es[i], es[j] = es[j], es[i]
    if len({frozenset(e) for e in es}) < len(es):
        raise Skip()
    if rng.random() < .5 or True:
        d = {}
        segs = [LineSegment(d.setdefault(a, Point(a)) if rng.random() < .7 else Point(a), d.setdefault(b, Point(b)) if rng.random() < .7 else Point(b)) for a, b in es]
    P = PolygonLine(segs)
    rec.desc = es
    rec.sig(es)
    n = len(es)
    rel = {}
    cont = []
    for i, j in itertools.combinations(range(n), 2):
        o = Pair(*(es[i] + es[j]))
        x = o.on_segment
        if x is None or o.commons is None:
            raise Skip()
        if o.parallel and o.collinear is not False and (o.common() or ('segment',))[0] == 'segment':
            raise Skip()  # chains that run back on themselves
        if x:
            rel[(i, j)] = True
        if j == i + 1:
            cont.append(o.continuous)
    idx = {id(s): k for k, s in enumerate(P.segments)}
    cr = P.crossing_lines
    got = {tuple(sorted((idx[id(a)], idx[id(b)]))) for a, b in cr}
    rec.expect(got == set(rel), 'crossing', bool(rel), lambda: 'got %s, expected %s for %s' % (sorted(got), sorted(rel), es))
    if rel:
        rec.eq(len(cr), 2 * len(rel), 'crossing', es, 'both orders')
    il = intersecting_lines(P.segments)
    rec.expect(len(il) == len(rel) and {tuple(sorted((idx[id(a)], idx[id(b)]))) for a, b in il} == set(rel), 'intersecting', bool(rel), lambda: 'got %s for %s' % (il, es))
    rec.eq(P.iscontinuous, all(cont), 'continuous', es)
    rec.eq([idx[id(s)] for s in P.discontinuity], [k + 1 for k, c in enumerate(cont) if not c], 'discontinuity', es, not all(cont))
    rec.eq(P.isvalid, all(cont) and not rel, 'valid', es)
    ends = es[0][0] == es[-1][1]
    rec.eq(P.isclosed, all(cont) and ends, 'closed', es)
    rec.eq(P.isopen, not (all(cont) and ends), 'open', es)
    rec.eq((P.first_point.xy, P.last_point.xy), (es[0][0], es[-1][1]), 'ends', es, 'ends')
    rec.eq([s for s in state(P)] == es, True, 'operands', es)
    if all(cont) and n == 3 and ends:
        rec.eq(P.is_triangle, True, 'is-triangle', es)
    elif len(set(pts)) > 3:
        rec.eq(P.is_triangle, False, 'is-triangle', es)


# --------------------------------------------------------------------------------------------------------------------
# G12 order, equality

def check_cycle(rec, P, pts, ctx, rule):
    es = state(P)
    rec.expect(edges_match(es, edges(pts), 1e-9) and len(es) == len(pts), rule, 'same edges', lambda: 'got %s, expected the edges of %s' % (es, ctx))
    rec.expect(all(a[1] == b[0] for a, b in zip(es, es[1:] + es[:1])), rule, 'continuous', lambda: 'not continuous: %s for %s' % (es, ctx))


def f_order(rng, rec, tier):
    big = rng.random() < .02
    pts, name = polygon(rng, nmax=60 if big else rng.choice([3, 6, 12, 20]))
    if big:
        # subdivide to get many segments
        q = []
        for a, b in edges(pts):
            k = rng.choice([4, 8, 16])
            q += [(a[0] + (b[0] - a[0]) * t / k, a[1] + (b[1] - a[1]) * t / k) for t in range(k)]
        q = [(round(x, 8), round(y, 8)) for x, y in q]
        if min(dist(a, b) for a, b in edges(q)) > 1e-3 and len(set(q)) == len(q):
            pts = q
    if rng.random() < .3:
        # the origin inside, equal distances
        m = pts[rng.randrange(len(pts))]
        pts = [(round(x - m[0], 6), round(y - m[1], 6)) for x, y in pts]
    P = loose_closed(pts, rng)
    e0 = state(P)[0]
    ctx = 'scrambled %r of %r' % (state(P), pts) if len(pts) < 30 else '%d points' % len(pts)
    rec.desc = name, pts[:30]
    rec.sig(state(P))
    # the sense is that of the first segment
    fwd = e0 in [(tuple(map(float, a)), tuple(map(float, b))) for a, b in edges(pts)]
    want = [tuple(map(float, p)) for p in (pts if fwd else pts[::-1])]
    ds = [math.hypot(*p) for p in want]
    mind = min(ds)
    starts = [k for k, d in enumerate(ds) if d < mind + 1e-9]
    if len(starts) > 1:
        starts = [k for k in starts if ds[k] <= mind + 1e-9]
    W = {tuple(want[k:] + want[:k]) for k in starts}
    r = P.order()
    rec.eq(r, True, 'order', ctx, 'ordered')
    check_cycle(rec, P, pts, ctx, 'order')
    got = tuple(s.i.xy for s in P.segments)
    rec.expect(got in W, 'canonical', len(starts), lambda: 'got %r, expected %r for %s' % (got, W, ctx))
    rec.eq(P.isclosed, True, 'order', ctx, 'closed')
    if len(pts) <= 24:
        rec.eq(P.isvalid, True, 'order', ctx, 'valid')
    before = state(P)
    rec.eq(P.order(), True, 'order', ctx, 'ordered')
    rec.eq(state(P) == before, True, 'idempotent', ctx)
    # the same polygon from another scramble with the same sense
    Q = loose_closed(pts, rng)
    Q.order()
    q = tuple(s.i.xy for s in Q.segments)
    if len(starts) == 1:
        rec.expect(q == got or q == got[:1] + got[1:][::-1], 'canonical', 'again', lambda: 'got %r and %r for %r' % (got, q, pts))
    # an open chain is refused
    if len(pts) > 3:
        left = list(loose_closed(pts, rng).segments)
        left.pop(rng.randrange(len(pts)))
        O = PolygonLine(left)
        rec.eq(O.order(), False, 'order-open', ctx)


def f_walk(rng, rec, tier):
    pts, name = polygon(rng, nmax=rng.choice([3, 5, 8]), midpoints=False)
    P = loose_closed(pts, rng) if rng.random() < .6 else separate(pts)
    segs = list(P.segments)
    kind = rng.choice(['cycle', 'cycle', 'branch', 'open'])
    if kind == 'open' and len(segs) > 3:
        segs.pop(rng.randrange(1, len(segs)))
    elif kind == 'branch' and len(pts) > 3:
        # a chord between two vertices
        i, j = rng.sample(range(len(pts)), 2)
        if abs(i - j) in (1, len(pts) - 1):
            raise Skip()
        segs.append(LineSegment(Point(pts[i]), Point(pts[j])))
    else:
        kind = 'cycle'
    before = [(s.i.xy, s.j.xy) for s in segs]
    rec.desc = kind, before
    rec.sig(before)
    st = rng.choice([None, segs[0].i, rng.choice(segs).i])
    r = walk_segments(segs) if st is None else walk_segments(segs, startingpoint=st)
    if kind == 'cycle':
        rec.expect(isinstance(r, PolygonLine), 'walk', 'polygon', lambda: 'got %r for the cycle %s' % (r, before))
        check_cycle(rec, r, pts, before, 'walk')
    elif kind == 'open':
        rec.eq(r, False, 'walk', before, 'open')
    else:
        rec.eq(r, False, 'walk', before, 'branch')
    rec.eq([(s.i.xy, s.j.xy) for s in segs] == before, True, 'operands', before)
    rec.eq(walk_segments(()), False, 'walk', None, 'empty')


def f_equal(rng, rec, tier):
    pts, name = polygon(rng, nmax=10)
    rec.desc = name, pts
    rec.sig(pts)
    P, _ = make(rng, pts)
    Q = copy.deepcopy(P)
    rec.eq(P == Q, True, 'equal', pts, 'copy')
    rec.eq(P != Q, False, 'equal', pts, 'copy')
    rec.eq(hash(P), hash(Q), 'hash', pts, 'copy')
    rec.eq(hash(P), hash(separate(pts)), 'hash', pts, 'separate')
    rec.eq(len({P, Q}), 1, 'hash', pts)
    S = loose_closed(pts, rng)
    rec.eq(P.loose_equal(S), True, 'loose', pts)
    rec.eq(S.loose_equal(P), True, 'loose', pts)
    es = edges(pts)
    rng.shuffle(es)
    D = PolygonLine([LineSegment(Point(a), Point(b)) for a, b in es])
    rec.eq(P.loose_equal(D, direction_matters=True), True, 'loose-directed', pts)
    es[0] = es[0][::-1]
    D = PolygonLine([LineSegment(Point(a), Point(b)) for a, b in es])
    rec.eq(P.loose_equal(D, direction_matters=True), False, 'loose-directed', pts)
    rec.eq(P.loose_equal(D), True, 'loose', pts)
    # other polygons are not equal: a vertex elsewhere, other connections of the same vertices, a subset
    k = rng.randrange(len(pts))
    d = rng.choice([.001, .125, 1, 50])
    other = list(pts)
    other[k] = (other[k][0] + d, other[k][1])
    O = closed(other)
    if ipt(other[k]) not in [ipt(p) for p in pts]:
        rec.eq(P == O, False, 'equal', (pts, other))
        rec.eq(P.loose_equal(O), False, 'loose', (pts, other))
        rec.eq(O.loose_equal(P), False, 'loose', (pts, other))
        rec.eq(P.loose_subset(O), False, 'subset', (pts, other))
    if len(pts) > 3:
        w = list(pts)
        i, j = rng.sample(range(len(pts)), 2)
        w[i], w[j] = w[j], w[i]
        same_edges = norm_edges(edges(w)) == norm_edges(edges(pts))
        rec.eq(P.loose_equal(closed(w)), same_edges, 'loose', (pts, w))
        rec.eq(P.loose_subset(closed(w)), True, 'subset', (pts, w))
        part = polygon_from_nodes(pts[:-1])
        rec.eq(P.loose_subset(part), True, 'subset', pts)
        rec.eq(P.loose_equal(part), False, 'loose', pts)
        rec.eq(part.loose_equal(P), False, 'loose', pts)
        rec.eq(part.loose_equal(S), False, 'loose', pts)
        rec.eq((P == part, part == P), (False, False), 'equal', pts)
    # the neighbours of a point
    nb = sorted(p.xy for p in S.neighbour(p=Point(pts[k])))
    rec.eq(nb, sorted([tuple(map(float, pts[k - 1])), tuple(map(float, pts[(k + 1) % len(pts)]))]), 'neighbour', pts, 'two')
    for we, c in (('start', lambda s: [s[0]]), ('end', lambda s: [s[1]]), ('both', lambda s: s)):
        got = sorted((s.i.xy, s.j.xy) for s in S.find_segment_by_point(Point(pts[k]), whichend=we))
        want = sorted(s for s in state(S) if tuple(map(float, pts[k])) in c(s))
        rec.eq(got, want, 'find', (pts, k, we), we)
    rec.eq(S.find_segment_by_point(Point((-12345.5, 777.25)), whichend='both'), [], 'find', pts, 'nothing')
    seg = P.segments[k]
    rec.eq(P.next_segment(seg).i == seg.j, True, 'next', pts)
    ps = P.point_set
    rec.eq([p.xy for p in ps], sorted(tuple(map(float, p)) for p in pts), 'point-set', pts, 'sorted')
    rec.eq(len(P.all_points), 2 * len(pts), 'point-set', pts, 'all')
    m = P.midpoint
    rec.expect(near_pt(m.xy, (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)), 2e-8), 'midpoint', None, pts)


# --------------------------------------------------------------------------------------------------------------------
# G13 simplification

def f_collinear(rng, rec, tier):
    pts, name = simple_polygon(rng, nmax=10, midpoints=True)
    ip = [ipt(p) for p in pts]
    n = len(pts)
    mids = []
    for k in range(n):
        x = cross(ip[k - 1], ip[k], ip[(k + 1) % n])
        if x == 0:
            mids.append(k)
        elif abs(x) < 1e-3 * SC * max(dist(ip[k - 1], ip[k]), dist(ip[k], ip[(k + 1) % n]), dist(ip[k - 1], ip[(k + 1) % n])):
            raise Skip()
    # dropping a vertex never makes another one nearly collinear: all the triples of the corners are checked
    corners = [pts[k] for k in range(n) if k not in mids]
    if not well_shaped(corners):
        raise Skip()
    P, how = (loose_closed(pts, rng), 'scrambled') if rng.random() < .3 else make(rng, pts)
    rec.desc = name, how, pts
    rec.sig(pts)
    before = state(P)
    m, s, cnt = P.collinear_points
    if how != 'scrambled':
        rec.eq({p.xy for p in m}, {tuple(map(float, pts[k])) for k in mids}, 'mids', (how, pts), bool(mids))
        sides = {k for q in mids for k in ((q - 1) % n, (q + 1) % n)} - set(mids)
        rec.eq({p.xy for p in s}, {tuple(map(float, pts[k])) for k in sides}, 'sides', pts, bool(sides))
        R = remove_collinear_points(P)
        check_cycle(rec, R, corners, (how, pts), 'removed')
        rec.eq(R.isclosed, True, 'removed', pts, 'closed')
        rec.ok('removed', '%s points' % min(len(mids), 5))
    rec.eq(state(P) == before, True, 'operands', pts)


def f_outliers(rng, rec, tier):
    pts, name = simple_polygon(rng, nmax=8)
    es = edges(pts)
    far = max(max(map(abs, p)) for p in pts) + 10
    segs = [LineSegment(Point(a), Point(b)) for a, b in es]
    extra = []
    for _ in range(rng.randint(0, 3)):
        a = rng.choice(pts)
        far += 7
        b = (round(far, 6), round(far * rng.choice([.5, 1, -1]), 6))
        extra.append((a, b) if rng.random() < .5 else (b, a))
        if rng.random() < .4:  # a chain: the next one has a free end as soon as the last one is removed
            for _ in range(rng.randint(1, 4)):
                far += 2.5
                c = (round(far, 6), round(rng.choice([.5, 1, -1]) * far + 1, 6))
                extra.append((b, c) if rng.random() < .5 else (c, b))
                b = c
            if rng.random() < .3:  # up to a loop, which stays, with the chain to it
                c, d = (round(far + 1, 6), round(b[1] + 3, 6)), (round(far + 2, 6), round(b[1] - 1, 6))
                extra += [(b, c), (c, d), (d, b)]
        elif rng.random() < .3:  # not connected at all
            extra.append(((round(far + 3, 6), 0.5), (round(far + 4, 6), 0.25)))
    segs += [LineSegment(Point(a), Point(b)) for a, b in extra]
    rng.shuffle(segs)
    st = [(s.i.xy, s.j.xy) for s in segs]
    rec.desc = name, st
    rec.sig(st)
    want, left, rounds = st, None, 0
    while want != left:
        left, cnt = want, {}
        for a, b in left:
            cnt[a] = cnt.get(a, 0) + 1
            cnt[b] = cnt.get(b, 0) + 1
        want = [e for e in left if cnt[e[0]] > 1 and cnt[e[1]] > 1]
        rounds += 1
    got = remove_outlier_segments(segs)
    rec.eq([(s.i.xy, s.j.xy) for s in got], want, 'outliers', st, (len(st) - len(want), rounds))
    rec.eq([(s.i.xy, s.j.xy) for s in segs] == st, True, 'operands', st)
    P = PolygonLine(segs)
    # markers belong to segments and go with them
    mk = [[], []]
    share = rng.choice([(1, 1), (1, 0), (0, 1), (.5, .5), (1, .3)])
    rec.eq((list(P.internal), list(P.external)), ([], []), 'markers', st, 'none')
    for s in segs:
        for l, add, q in zip(mk, (P.add_internal_point, P.add_external_point), share):
            if rng.random() < q:
                add(p=Point((1, 2)), segment=s)
                l.append((s.i.xy, s.j.xy))
    simplify(P)
    rec.eq(state(P), want, 'simplify', st, len(st) - len(want))
    for l, k in zip((P.internal, P.external), mk):
        k = [x for x in k if x in want]
        rec.eq(sorted((x.segment.i.xy, x.segment.j.xy) for x in l), sorted(k), 'markers', st, (len(want) < len(st), bool(k)))


# --------------------------------------------------------------------------------------------------------------------
# G14 convex hull

def f_hull(rng, rec, tier):
    g = Grid(rng)
    n = rng.choice([3, 4, 6, 10, 30, 80])
    kind = rng.choice(['cloud', 'grid', 'polygon', 'circle', 'few'])
    if kind == 'cloud':
        ps = [g.pt() for _ in range(n)]
    elif kind == 'grid':
        s = rng.randint(1, 5)
        a, b = rng.randint(1, 6), rng.randint(1, 6)
        ps = [g.at(x * s, y * s) for x in range(a + 1) for y in range(b + 1) if rng.random() < .8]
    elif kind == 'polygon':
        ps, _ = simple_polygon(rng, nmax=20)
    elif kind == 'circle':
        r = rng.choice([1, 10, 500])
        ps = [(round(r * math.cos(2 * math.pi * k / n), 6), round(r * math.sin(2 * math.pi * k / n), 6)) for k in range(n)]
    else:
        ps = [g.pt() for _ in range(rng.randint(1, 4))]
    ps = [tuple(p) for p in ps]
    if rng.random() < .3 and ps:
        ps += [rng.choice(ps) for _ in range(3)]
    rng.shuffle(ps)
    rec.desc = kind, ps[:30]
    rec.sig(ps)
    keep = list(ps)
    ip = sorted({ipt(p) for p in ps})
    if len(ip) < 2:
        r = convex_hull(ps)
        rec.expect([ipt(p) for p in r] == ip, 'single', len(ip), lambda: 'got %r for %r' % (r, ps))
        return
    h = hull(ip)
    if len(h) < 3:
        raise Skip()
    # nearly flat vertices are not judged as vertices
    H = convex_hull(ps)
    rec.eq(ps == keep, True, 'operands', ps)
    got = [s.i.xy for s in H.segments]
    ig = [ipt(p) for p in got]
    exact = all((x * 1024).is_integer() for p in ps for x in map(float, p))
    ctx = 'got %r for %r' % (got, ps)
    rec.expect(all(q in set(ip) for q in ig), 'subset', None, ctx)
    rec.expect(len(set(ig)) == len(ig), 'subset', 'once', ctx)
    rec.expect([a[1] for a in state(H)] == got[1:] + got[:1], 'closed', None, ctx)
    e = edges(ig)
    tol = 1e-7 * SC
    rec.expect(shoelace2(ig) > 0, 'ccw', None, ctx)
    for a, b in e:
        d = dist(a, b)
        for p in ip:
            c = cross(a, b, p)
            if c < -tol * d:
                rec.fail('encloses', '%r is outside, %s' % (p, ctx))
    rec.ok('encloses', None, len(ip))
    turn = [cross(ig[k - 2], ig[k - 1], ig[k]) for k in range(len(ig))]
    rec.expect(all(t > -tol * SC for t in turn), 'convex', None, ctx)
    rec.near(float(shoelace2(ig)) / SC / SC, float(shoelace2(h)) / SC / SC, 1e-6, 'area', ctx)
    if exact:
        rec.expect(ig == h, 'vertices', len(h) if len(h) < 6 else '6+', lambda: 'expected %r, %s' % (h, ctx))
        rec.eq(H.isccw, True, 'ccw', ctx, 'isccw')
        rec.eq(H.isconvex, True, 'convex', ctx, 'isconvex')
        rec.eq(H.isvalid, True, 'closed', ctx, 'valid')
        rec.eq(H.isclosed, True, 'closed', ctx, 'isclosed')


# --------------------------------------------------------------------------------------------------------------------
# G15 constructors

def f_nodes(rng, rec, tier):
    pts, name = polygon(rng, nmax=12)
    cw = rng.random() < .5
    nodes = [list(p) if rng.random() < .3 else p for p in pts]
    rec.desc = name, cw, pts
    rec.sig((cw, pts))
    P = polygon_from_nodes(nodes, cw=cw)
    want = [tuple(map(float, p)) for p in (pts[:1] + pts[1:][::-1] if cw else pts)]
    rec.eq(state(P), list(zip(want, want[1:])), 'nodes', rec.desc, cw)
    rec.eq(P.isopen, True, 'nodes', rec.desc, 'open')
    C = P.closed_copy()
    rec.eq(state(P), list(zip(want, want[1:])), 'closed-copy', rec.desc, 'original')
    rec.eq(state(C), edges(want), 'closed-copy', rec.desc, 'copy')
    P.close()
    rec.eq(state(P), edges(want), 'close', rec.desc, 'closed')
    P.close()
    rec.eq(state(P), edges(want), 'close', rec.desc, 'again')
    rec.eq(P.isvalid and P.isclosed, True, 'close', rec.desc)


def f_append(rng, rec, tier):
    pts, name = polygon(rng, nmax=12)
    k = rng.randint(2, len(pts))
    P = polygon_from_nodes(pts[:k])
    l, r = list(pts[:k]), list(pts[k:])
    back = rng.random() < .3
    log = []
    if rng.random() < .3:
        P.purge()
    while r:
        if rng.random() < .5:
            q = r.pop(0)
            P.append_point_at_end(Point(q))
            l.append(q)
            log.append('end')
        else:
            q = r.pop()
            P.append_point_at_beginning(Point(q))
            l.insert(0, q)
            log.append('begin')
    l = [tuple(map(float, p)) for p in l]
    rec.desc = name, pts, k, log
    rec.sig(rec.desc)
    rec.eq(state(P), list(zip(l, l[1:])), 'append', rec.desc, 'chain')
    # back to the start
    if rng.random() < .5:
        P.append_point_at_end(Point(l[0]))
    else:
        P.append_point_at_beginning(Point(l[-1]))
        l = l[-1:] + l[:-1]
    rec.eq(state(P), edges(l), 'append', rec.desc, 'closed')
    rec.eq(P.isclosed, True, 'append', rec.desc)
    x, y = rng.randint(-99, 99) / 4., rng.randint(-99, 99) / 4.
    P.move(x0=x, y0=y)
    m = [(a + x, b + y) for a, b in l]
    rec.expect(edges_match(state(P), edges(m), 1e-7, directed=True) and P.isclosed, 'append-move', None, lambda: 'got %s, expected %s: %s' % (state(P), edges(m), rec.desc))
    rec.expect(rejected(P.append_point_at_end, Point()) and rejected(P.append_point_at_beginning, Point()), 'refuse', None, rec.desc)


def f_square(rng, rec, tier):
    a = rng.choice([1, 2, 3.5, 10, .25, 1000, 7.3])
    x, y = rng.choice([0, 5, -3.25, 1000]), rng.choice([0, -7, 2.5, -1000])
    cw = rng.random() < .5
    rec.desc = a, x, y, cw
    rec.sig(rec.desc)
    P = square(a=a, x0=x, y0=y, cw=cw)
    h = a / 2.
    w = [(x, y), (x + h, y), (x + h, y + a), (x - h, y + a), (x - h, y)]
    if cw:
        w = w[:1] + w[1:][::-1]
    rec.expect(edges_match(state(P), edges(w), 2e-8, directed=True), 'square', cw, lambda: 'got %s, expected %s' % (state(P), edges(w)))
    rec.eq(P.isclosed and P.isvalid, True, 'square', rec.desc)
    rec.eq(P.iscw, cw, 'square', rec.desc)
    rec.near(P.area, a * a, 1e-6 + a * a * 1e-10, 'square', rec.desc)


def f_arc(rng, rec, tier):
    r = rng.choice([1, 2.5, 100, .5])
    s = rng.choice([0, 30, 90, 215.5, 10])
    e = rng.choice([x for x in (45, 90, 120.5, 180, 270, 359, 360) if x > s])
    n = rng.choice([1, 2, 3, 5, 10, 36])
    if (e - s) >= 360 and n < 3:
        raise Skip()
    cx, cy = rng.choice([0, 1, -20.5]), rng.choice([0, -4, 300.25])
    cw = rng.random() < .4
    P0 = rng.choice([Point((cx, cy)), (cx, cy), [cx, cy]])
    rec.desc = r, s, e, n, cx, cy, cw
    rec.sig(rec.desc)
    A = arc(P=P0, r=r, alpha_start=s, alpha_end=e, n=n, cw=cw)
    an = [math.radians(s + (e - s) * k / float(n)) for k in range(n + 1)]
    w = [(cx + r * math.cos(t), cy + r * math.sin(t)) for t in an]
    if cw:
        w.reverse()
    got = [q.i.xy for q in A.segments] + [A.segments[-1].j.xy]
    rec.expect(len(got) == n + 1 and all(near_pt(p, q, 1e-7) for p, q in zip(got, w)), 'arc', cw, lambda: 'got %r, expected %r for %s' % (got, w, rec.desc))
    if n > 1:
        rec.eq(A.isclosed, e - s == 360, 'arc-closed', rec.desc)
        rec.eq(A.isvalid, True, 'arc-valid', rec.desc)


def f_add(rng, rec, tier):
    pts, name = polygon(rng, nmax=12, midpoints=False)
    if len(pts) < 5:
        raise Skip()
    # parts of a polygon: with a common point (a longer line) or with a gap (connected by a segment)
    parts, k = [], 0
    gaps = []
    n = len(pts)
    while k < n - 1:
        m = rng.randint(1, 3)
        q = pts[k:k + m + 1]
        if len(q) < 2:
            break
        parts.append(q)
        gap = rng.random() < .5
        gaps.append(gap)
        k += m + (1 if gap else 0)
    if len(parts) < 2:
        raise Skip()
    want = []
    for q in parts:
        for p in q:
            p = tuple(map(float, p))
            if not want or want[-1] != p:
                want.append(p)
    L = [polygon_from_nodes(q) for q in parts]
    st = [state(p) for p in L]
    rec.desc = name, parts
    rec.sig(parts)
    R = add(*L)
    rec.eq(state(R), list(zip(want, want[1:])), 'add', parts, 'gap' if any(gaps[:-1]) else 'common')
    rec.eq([state(p) for p in L] == st, True, 'operands', parts)
    rec.eq(R.isvalid, True, 'add', parts)
    x = 2.5
    R.move(x0=x, y0=x)
    rec.expect(edges_match(state(R), [((a[0] + x, a[1] + x), (b[0] + x, b[1] + x)) for a, b in zip(want, want[1:])], 1e-7, directed=True), 'add-move', None, lambda: '%s for %s' % (state(R), parts))
    # crossing parts are refused
    a, b = pts[0], pts[1]
    mx, my = (a[0] + b[0]) / 2., (a[1] + b[1]) / 2.
    d = dist(a, b)
    nx, ny = -(b[1] - a[1]) / d, (b[0] - a[0]) / d
    c1 = polygon_from_nodes([a, b])
    c2 = polygon_from_nodes([(mx + nx, my + ny), (mx - nx, my - ny)])
    rec.expect(rejected(add, c1, c2), 'add-crossing', 'refused', lambda: 'crossing lines accepted: %r %r' % (c1, c2))


PROPS = {
    'G06': dict(families=[('points', 3, f_contain), ('moved', 1, f_contain_moved)]),
    'G07': dict(families=[('orient', 1, f_orient)]),
    'G08': dict(families=[('area', 1, f_area)]),
    'G09': dict(families=[('triangle', 1, f_triangle), ('two', 3, f_two_triangles), ('polygons', 1, f_disjunct)]),
    'G10': dict(families=[('history', 4, f_history), ('again', 1, f_area_again)]),
    'G11': dict(families=[('chain', 1, f_chain)]),
    'G12': dict(families=[('order', 3, f_order), ('walk', 1, f_walk), ('equal', 2, f_equal)]),
    'G13': dict(families=[('collinear', 2, f_collinear), ('outliers', 1, f_outliers)]),
    'G14': dict(families=[('hull', 1, f_hull)]),
    'G15': dict(families=[('nodes', 1, f_nodes), ('append', 1, f_append), ('square', 1, f_square), ('arc', 1, f_arc), ('add', 2, f_add)]),
}
