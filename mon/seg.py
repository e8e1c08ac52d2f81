# -*- coding: utf-8 -*-
""" points and segments: G01 - G05 """
import math
from fractions import Fraction as F
from common import *
from oracle import Pair, on_line, side, in_box, same, angle_deg
import gen
from geometry.SR_point import Point, IntexPoint, distance, EPS
from geometry import SR_line
from geometry.SR_line import LineSegment, divide_line, point_on_line_at_ratio, add_point_on_line


def S(a, b):
    return LineSegment(Point(a), Point(b))


def vec(a, b):
    return b[0] - a[0], b[1] - a[1]


# --------------------------------------------------------------------------------------------------------------------
# G01 points

def rcoord(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.randint(-100, 100)
    if k == 1:
        return rng.uniform(-10, 10)
    if k == 2:
        return rng.uniform(-1e4, 1e4)
    if k == 3:
        return round(rng.uniform(-100, 100), rng.randint(0, 8))
    if k == 4:
        return rng.choice([0, -0., 1e-9, -1e-9, 5e-9, .1 + .2, 1 / 3., 1e4, -1e4, 1e-5, math.pi])
    return rng.randint(-6400, 6400) / 64.


BAD = [(), (1,), (1, 2, 3), (None, None), (None, 1), (2, None), ('a', 1), (1, 'b'), ('x', 'y'), (1, 2, 3, 4), ([1], 2), (1, (2, 3))]


def valid_coords(p, c, rec, rule):
    rec.expect(p.isvalid is True, rule, 'valid', lambda: '%r is not valid' % (c,))
    for got, want in zip(p.xy, c):
        rec.near(got, want, .51e-8 + abs(want) * 3e-16, 'coords', c)
    rec.expect(p.x == p.xy[0] and p.y == p.xy[1] and isinstance(p.x, float) and isinstance(p.y, float), 'coords', 'float', p)


def f_point_life(rng, rec, tier):
    """ a history of changes of one point against a model """
    c = (rcoord(rng), rcoord(rng)) if rng.random() < .7 else rng.choice(BAD)
    hist = [c]
    p = Point(c)
    rec.desc = hist
    for _ in range(rng.randint(1, 8)):
        if len(c) == 2 and all(isinstance(x, (int, float)) for x in c):
            valid_coords(p, c, rec, 'validity')
            rec.eq(p._isempty(), False, 'empty', hist)
        else:
            rec.eq(p.isvalid, False, 'validity', hist)
            rec.eq(p == Point((0, 0)), False, 'invalid-unequal', hist)
            rec.eq(Point((0, 0)) == p, False, 'invalid-unequal', hist)
            rec.eq(p == p, False, 'invalid-unequal', hist)
            rec.expect(rejected(p.distance, Point((0, 0))) and rejected(distance, Point((0, 0)), p), 'refuse', 'distance', hist)
        k = rng.randrange(5)
        if k == 0:
            p._empty()
            c = (None, None)
            hist.append('empty')
            rec.eq(p._isempty(), True, 'empty', hist)
        elif k == 1:
            c = rng.choice(BAD)
            p._set_coords(c)
            hist.append(c)
        elif k == 2 and rng.random() < .5:
            _ = p.isvalid, str(p)
        else:
            c = (rcoord(rng), rcoord(rng))
            p._set_coords(c)
            hist.append(c)
    rec.sig(hist)


def f_point_pairs(rng, rec, tier):
    a = (rcoord(rng), rcoord(rng))
    mode = rng.choice(['same', 'close', 'near', 'other', 'one'])
    if mode == 'same':
        b = a
    elif mode == 'close':
        b = tuple(x + rng.uniform(-.9e-5, .9e-5) for x in a)
    elif mode == 'near':
        k = rng.randrange(2)
        b = [x + rng.uniform(-.9e-5, .9e-5) for x in a]
        b[k] = a[k] + rng.choice([1, -1]) * rng.choice([1.1e-5, 2e-5, 1e-4, 1e-3])
        b = tuple(b)
    elif mode == 'one':
        b = (a[0], rcoord(rng)) if rng.random() < .5 else (rcoord(rng), a[1])
    else:
        b = (rcoord(rng), rcoord(rng))
    rec.desc = a, b
    rec.sig((a, b))
    p, q = Point(a), Point(b)
    dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
    m = max(dx, dy)
    tol = 3e-8 + 1e-15 * max(map(abs, a + b))
    if m < 1e-5 - tol or m > 1e-5 + tol:
        w = m < 1e-5
        rec.eq(p == q, w, 'equal', (a, b), w)
        rec.eq(q == p, w, 'equal', (b, a), w)
        rec.eq(p != q, not w, 'equal', (a, b))
    if mode == 'same':
        rec.eq(hash(p), hash(q), 'hash', a)
        rec.eq(len({p, q}), 1, 'hash', a)
    d = math.hypot(a[0] - b[0], a[1] - b[1])
    rec.near(p.distance(q), d, 2e-8 + d * 1e-12, 'distance', (a, b))
    rec.eq(p.distance(q), q.distance(p), 'distance-symmetric', (a, b), 'symmetric')
    rec.eq(distance(p, q), p.distance(q), 'distance-symmetric', (a, b), 'function')
    for o, f, g in (('plus', lambda: p + q, lambda x, y: x + y), ('minus', lambda: p - q, lambda x, y: x - y)):
        r = f()
        for k in (0, 1):
            rec.near(r.xy[k], g(a[k], b[k]), 3e-8 + 1e-15 * (abs(a[k]) + abs(b[k])), o, (a, b))
    rec.expect(Point(a).xy == p.xy and Point(b).xy == q.xy, 'operands', 'unchanged', (a, b))
    s = LineSegment(p, q)
    t = IntexPoint(a, segment=s)
    rec.expect(t.isvalid and t.xy == p.xy and t.segment is s, 'intexpoint', None, (a, b))
    rec.near(t.distance(q), d, 2e-8 + d * 1e-12, 'distance', (a, b))
    rec.eq(p.bounding_box(), ((p.x, p.x), (p.y, p.y)), 'box', a, 'box')


# --------------------------------------------------------------------------------------------------------------------
# G02, G03 relations of two segments

def variants(rng, q):
    a, b, c, d = q
    v = [(a, b, c, d), (c, d, a, b), (b, a, c, d), (a, b, d, c), (d, c, b, a), (c, d, b, a)]
    return v


def judge2(rec, rule, got, want, ctx):
    if want is None:
        rec.skip(rule)
    else:
        if got is not want:
            rec.fail(rule, 'got %r, expected %r for %s' % (got, want, ctx))
        rec.ok(rule, want)


def f_incidence(rng, rec, tier):
    g = gen.Grid(rng, extreme=.25)
    q, kind = gen.segment_pair(rng, g)
    rec.desc = kind, q
    rec.sig(q)
    for a, b, c, d in variants(rng, q):
        P = Pair(a, b, c, d)
        s, t = S(a, b), S(c, d)
        ctx = 'LineSegment %r-%r, %r-%r' % (a, b, c, d)
        judge2(rec, 'parallel', s.is_parallel(t), P.parallel, ctx)
        judge2(rec, 'intersecting', s.is_intersecting(t), None if P.parallel is None else not P.parallel, ctx)
        judge2(rec, 'collinear', s.is_collinear(t), P.collinear, ctx)
        judge2(rec, 'touch', s.touch(t), P.touch, ctx)
        judge2(rec, 'continuous', s.continuous(t), P.continuous, ctx)
        judge2(rec, 'on-segment', s.intersection_on_segment(t), P.on_segment, ctx)
        judge2(rec, 'on-endpoint', s.intersection_on_endpoint(t), P.on_endpoint, ctx)
        ip = s.intersection_point(t)
        if P.parallel is None:
            rec.skip('intersection-point')
        elif P.parallel:
            rec.expect(ip is None, 'intersection-point', 'None', lambda: 'got %s for parallel %s' % (ip, ctx))
        elif P.sin < 1e-3:
            rec.skip('intersection-point')
        else:
            (x, y), _, _ = P.meet
            tol = 2e-8 + 10 * P.err
            rec.expect(ip is not None and near_pt(ip.xy, (float(x) / SC, float(y) / SC), tol), 'intersection-point', 'Point',
                       lambda: 'got %s, expected %r for %s' % (ip, (float(x) / SC, float(y) / SC), ctx))
        pts = [x.xy for x in s.ij + t.ij]
        rec.expect(pts == [(float(x), float(y)) for x, y in (a, b, c, d)], 'operands', 'unchanged', lambda: '%s changed to %s' % (ctx, pts))


def f_shared_object(rng, rec, tier):
    """ segments that use the same Point objects, as in polylines """
    g = gen.Grid(rng, extreme=.25)
    ps = [g.pt() for _ in range(4)]
    if len(set(ps)) < 4:
        raise Skip()
    P = [Point(p) for p in ps]
    k, l = rng.sample(range(4), 2), rng.sample(range(4), 2)
    s, t = LineSegment(*[P[x] for x in k]), LineSegment(*[P[x] for x in l])
    rec.desc = ps, k, l
    rec.sig(rec.desc)
    o = Pair(ps[k[0]], ps[k[1]], ps[l[0]], ps[l[1]])
    judge2(rec, 'touch', s.touch(t), o.touch, rec.desc)
    judge2(rec, 'continuous', s.continuous(t), o.continuous, rec.desc)
    judge2(rec, 'parallel', s.is_parallel(t), o.parallel, rec.desc)
    judge2(rec, 'on-segment', s.intersection_on_segment(t), o.on_segment, rec.desc)


def judge_common(rec, cp, want, ctx, rule='common-part'):
    if want is None:
        rec.skip(rule)
        return
    if want[0] == 'none':
        rec.expect(cp is None, rule, 'None', lambda: 'got %s, expected None for %s' % (cp, ctx))
    elif want[0] == 'point':
        rec.expect(isinstance(cp, Point) and near_pt(cp.xy, want[1], want[2]), rule, 'Point', lambda: 'got %s, expected the point %r for %s' % (cp, want[1], ctx))
    else:
        ok = isinstance(cp, LineSegment) and edges_match([(cp.i.xy, cp.j.xy)], [(want[1], want[2])], 2e-8)
        rec.expect(ok, rule, 'LineSegment', lambda: 'got %s, expected the segment %r for %s' % (cp, want[1:], ctx))


def f_common(rng, rec, tier):
    g = gen.Grid(rng, extreme=.25)
    q, kind = gen.segment_pair(rng, g)
    rec.desc = kind, q
    rec.sig(q)
    for a, b, c, d in variants(rng, q):
        P = Pair(a, b, c, d)
        want = P.common()
        s, t = S(a, b), S(c, d)
        ctx = 'LineSegment %r-%r, %r-%r' % (a, b, c, d)
        cp = s.common_part(t)
        judge_common(rec, cp, want, ctx)
        if want is not None:
            ty = {'none': None, 'point': 'Point', 'segment': 'LineSegment'}[want[0]]
            got = s.common_part_type(t)
            rec.expect(got == ty, 'common-part-type', ty, lambda: 'got %r, expected %r for %s' % (got, ty, ctx))
            ol = s.overlap(t)
            if want[0] == 'segment':
                rec.expect(ol[0] is True, 'overlap', True, lambda: 'got %s for %s' % (ol, ctx))
                judge_common(rec, ol[1], want, ctx, 'overlap')
            elif not (P.parallel and P.touch):
                rec.expect(ol[0] is False and ol[1] is None, 'overlap', False, lambda: 'got %s for %s' % (ol, ctx))
        pts = [x.xy for x in s.ij + t.ij]
        rec.expect(pts == [(float(x), float(y)) for x, y in (a, b, c, d)], 'operands', 'unchanged', lambda: '%s changed to %s' % (ctx, pts))
        if isinstance(cp, LineSegment) and want is not None and rng.random() < .5:
            # the result is independent of the operands: changing it does not change them
            x = [p.xy for p in s.ij + t.ij]
            own = {id(p) for p in s.ij + t.ij}
            rec.ok('common-part-alias', 'shared' if own & {id(p) for p in cp.ij} else 'own')


# --------------------------------------------------------------------------------------------------------------------
# G04 measures and sides

def f_sides(rng, rec, tier):
    g = gen.Grid(rng, extreme=.25)
    q, kind = gen.segment_pair(rng, g)
    a, b, c, d = q
    ps = [c, d, g.pt()]
    k = rng.random()
    # points exactly on the line, inside and outside
    ia, ib = ipt(a), ipt(b)
    gcd = math.gcd(ib[0] - ia[0], ib[1] - ia[1])
    if gcd >= 1000:
        for _ in range(2):
            f = 2 ** rng.randint(0, 3)
            t = rng.randint(-f, 2 * f)
            ps.append((a[0] + t * (b[0] - a[0]) / f, a[1] + t * (b[1] - a[1]) / f))
    # points at a small distance
    n = dist(a, b)
    e = rng.choice([1e-4, 1e-3, 1e-2])
    t = rng.uniform(-.5, 1.5)
    sg = rng.choice([1, -1])
    ps.append((a[0] + t * (b[0] - a[0]) - sg * e * (b[1] - a[1]) / n, a[1] + t * (b[1] - a[1]) + sg * e * (b[0] - a[0]) / n))
    rec.desc = kind, a, b, ps
    rec.sig(rec.desc)
    for a, b in ((a, b), (b, a)):
        s = S(a, b)
        ia, ib = ipt(a), ipt(b)
        n = dist(a, b)
        for p in ps:
            pp = Point(p)
            ip = ipt(pp.xy)
            w = side(ia, ib, ip)
            ctx = 'segment %r-%r, point %r' % (a, b, p)
            judge2(rec, 'on-line', s.is_point_on_line(pp), None if w is None else w == 0, ctx)
            judge2(rec, 'right', s.is_point_to_right(pp), None if w is None else w < 0, ctx)
            judge2(rec, 'left', s.is_point_to_left(pp), None if w is None else w > 0, ctx)
            judge2(rec, 'in-box', s.is_internal_point(pp), in_box(ia, ib, ip), ctx)
            m = max(map(abs, a + b + p))
            dd = abs(cross(ia, ib, ip)) / dist(ia, ib) / SC
            rec.near(s.line_point_distance(pp), dd, 2e-8 + 1e-14 * m * m / n + 1e-12 * dd, 'line-distance', ctx)
            if same(ia, ip) is False:
                want = angle_deg(vec(ia, ib), vec(ia, ip))
                rec.near(s.angle_from_start_point(pp), want, 5e-6, 'angle-from-start', ctx)
                cc = s.crossproduct_commonstart(LineSegment(s.i, pp))
                x = cross(ia, ib, ip) / SC / SC
                rec.near(cc, x, 1e-9 + 1e-14 * (abs(x) + m * n), 'cross-commonstart', ctx)


def f_measures(rng, rec, tier):
    g = gen.Grid(rng, extreme=.25)
    (a, b, c, d), kind = gen.segment_pair(rng, g)
    rec.desc = kind, a, b, c, d
    rec.sig(rec.desc)
    s, t = S(a, b), S(c, d)
    v, w = vec(a, b), vec(c, d)
    m = max(map(abs, a + b + c + d))
    e = 1e-15 * m
    rec.near(s.norm, dist(a, b), 1e-9 + 1e-12 * m, 'norm', rec.desc)
    rec.expect(near_pt(s.as_vector, v, 1e-9) and near_pt((s.delta_x, s.delta_y), v, 1e-9), 'vector', None, rec.desc)
    n = dist(a, b)
    rec.expect(near_pt(s.unitvector, (v[0] / n, v[1] / n), 1e-9 + 10 * e / n), 'unitvector', None, rec.desc)
    x = v[0] * w[1] - v[1] * w[0]
    y = v[0] * w[0] + v[1] * w[1]
    tol = 1e-9 + 4e-15 * m * (dist(a, b) + dist(c, d)) * 2
    rec.near(s.crossproduct(t), x, tol, 'cross', rec.desc)
    rec.near(s.dotproduct(t), y, tol, 'dot', rec.desc)
    P = Pair(a, b, c, d)
    iv, iw = vec(P.a, P.b), vec(P.c, P.d)
    rec.near(s.angle_between_lines(t), angle_deg(iv, iw), 5e-6, 'angle-between', rec.desc)
    rec.near(t.angle_between_lines(s), angle_deg(iv, iw), 5e-6, 'angle-between', rec.desc)
    dr = s.direction
    want = math.degrees(math.atan2(v[1], v[0])) % 360
    df = abs(dr - want)
    rec.expect(0 <= dr <= 360 and min(df, 360 - df) < 1e-9 + 1e2 * e / n, 'direction', int(want // 90), lambda: 'got %r, expected %r for %s' % (dr, want, rec.desc))
    opp = angle_deg(iv, (-iw[0], -iw[1]))
    if opp == 0 or opp > 1e-6:
        judge2(rec, 'opposite', s.opposite_direction(t), opp == 0, rec.desc)
    rec.eq(s.bounding_box, ((min(a[0], b[0]), max(a[0], b[0])), (min(a[1], b[1]), max(a[1], b[1]))), 'box', rec.desc, 'box')
    rec.eq(s.isnull(), False, 'null', rec.desc)
    rec.eq(LineSegment(s.i, Point(a)).isnull(), True, 'null', rec.desc)
    rec.eq(s.isvalid, True, 'valid', rec.desc)
    # equality
    sm, rv = (P.a == P.c and P.b == P.d), (P.a == P.d and P.b == P.c)
    rec.eq(s == t, sm, 'equal', rec.desc)
    rec.eq(s != t, not sm, 'equal', rec.desc)
    rec.eq(s.loose_equal(t), sm or rv, 'loose-equal', rec.desc)
    rec.eq(S(b, a).loose_equal(s), True, 'loose-equal', rec.desc)
    if sm:
        rec.eq(hash(s), hash(t), 'hash', rec.desc, 'same')
    r = s.line_reversed
    rec.eq((r.i.xy, r.j.xy), (b, a), 'reversed', rec.desc, 'line_reversed')
    rec.eq((s.i.xy, s.j.xy), (a, b), 'reversed', rec.desc, 'operand')
    # mutators
    keep = s.unitvector, s.as_vector, s.delta_x, s.delta_y, s.direction, s.norm
    s.reverse()
    rec.eq((s.i.xy, s.j.xy), (b, a), 'reversed', rec.desc, 'reverse')
    s.reverse()
    x0, y0 = rng.randint(-50, 50) / 4., rng.randint(-50, 50) / 4.
    s.move(x0=x0, y0=y0)
    rec.expect(near_pt(s.i.xy, (a[0] + x0, a[1] + y0), 2e-8) and near_pt(s.j.xy, (b[0] + x0, b[1] + y0), 2e-8), 'move', None, rec.desc)
    s.mirror_vertical(x0=y0)
    rec.expect(near_pt(s.i.xy, (2 * y0 - a[0] - x0, a[1] + y0), 3e-8) and near_pt(s.j.xy, (2 * y0 - b[0] - x0, b[1] + y0), 3e-8), 'mirror', None, rec.desc)
    rec.near(s.norm, n, 1e-7, 'norm', rec.desc)
    # everything is that of the present position
    v = -(b[0] - a[0]), b[1] - a[1]
    rec.expect(near_pt((s.delta_x, s.delta_y), v, 6e-8) and near_pt(s.as_vector, v, 6e-8), 'vector', 'mirrored', rec.desc)
    if n > .05:
        rec.expect(near_pt(s.unitvector, (v[0] / n, v[1] / n), 1e-5), 'vector', 'unit', lambda: '%r of %r' % (s.unitvector, rec.desc))
        w = math.degrees(math.atan2(v[1], v[0])) % 360
        e = abs(s.direction - w)
        rec.expect(min(e, 360 - e) < 1e-3, 'direction', 'mirrored', lambda: 'got %r, expected %r for %r' % (s.direction, w, rec.desc))


# --------------------------------------------------------------------------------------------------------------------
# G05 subdivision

def f_subdivide(rng, rec, tier):
    g = gen.Grid(rng, extreme=.25)
    a, b = g.pt(), g.pt()
    if a == b or dist(a, b) < .01:
        raise Skip()
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 13, 50, 100, 251])
    rec.desc = a, b, n
    rec.sig(rec.desc)
    s = S(a, b)
    ds = divide_line(s, n)
    rec.eq(len(ds), n, 'divide-count', rec.desc)
    rec.eq((ds[0].i.xy, ds[-1].j.xy), (a, b), 'divide-ends', rec.desc, 'ends')
    for k, x in enumerate(ds):
        w = (a[0] + (b[0] - a[0]) * k / n, a[1] + (b[1] - a[1]) * k / n)
        rec.expect(near_pt(x.i.xy, w, 2e-8), 'divide-points', None, lambda: '%d: got %r, expected %r for %s' % (k, x.i.xy, w, rec.desc))
        rec.near(x.norm, dist(a, b) / n, 5e-8, 'divide-length', rec.desc)
        if k:
            rec.expect(ds[k - 1].j == x.i, 'divide-continuous', None, rec.desc)
    rec.eq((s.i.xy, s.j.xy), (a, b), 'operands', rec.desc, 'unchanged')
    r = rng.choice([0, 1, .5, .25, 1 / 3., rng.random(), rng.random(), 1e-3, .999])
    p = point_on_line_at_ratio(s, r)
    w = (a[0] + (b[0] - a[0]) * r, a[1] + (b[1] - a[1]) * r)
    rec.expect(near_pt(p.xy, w, 2e-8), 'ratio', 'end' if r in (0, 1) else 'inner', lambda: 'got %r, expected %r for ratio %r of %s' % (p, w, r, rec.desc))
    rec.near(p.distance(s.i), r * dist(a, b), 4e-8, 'ratio', rec.desc)
    rec.expect(rejected(point_on_line_at_ratio, s, rng.choice([-.1, 1.1, 2, -1])), 'ratio-refused', None, rec.desc)
    # splitting with a point on the segment, at the ends, outside
    k = rng.choice([1, 2, 4, 8])
    l = rng.randint(-k, 2 * k)
    q = Point((a[0] + (b[0] - a[0]) * l / k, a[1] + (b[1] - a[1]) * l / k))
    got = add_point_on_line(s, q)
    if 0 <= l <= k:
        ok = got and len(got) == 2 and got[0].i == s.i and got[1].j == s.j and near_pt(got[0].j.xy, q.xy, 2e-8) and near_pt(got[1].i.xy, q.xy, 2e-8)
        rec.expect(ok, 'split', 'on', lambda: 'got %s for %r in %s' % (got, q, rec.desc))
        rec.near(sum(x.norm for x in got), dist(a, b), 1e-7, 'split-length', rec.desc)
    else:
        rec.expect(got is False, 'split', 'off', lambda: 'got %s for %r in %s' % (got, q, rec.desc))


PROPS = {
    'G01': dict(families=[('life', 1, f_point_life), ('pairs', 2, f_point_pairs)]),
    'G02': dict(families=[('pairs', 8, f_incidence), ('shared', 2, f_shared_object)]),
    'G03': dict(families=[('common', 1, f_common)]),
    'G04': dict(families=[('sides', 1, f_sides), ('measures', 1, f_measures)]),
    'G05': dict(families=[('subdivide', 1, f_subdivide)]),
}
