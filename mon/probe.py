# -*- coding: utf-8 -*-
"""
In-situ monitoring: the methods of the package are wrapped, and the calls it makes itself while vessels are built, cut
and described are judged (arguments, result, and that the arguments were not changed) with exact arithmetic: V04.
"""
import itertools
import random as _random
import sys
from common import *
from oracle import Pair, on_line, side, in_box, same
from geometry import SR_point, SR_line, SR_polygon, SR_polygon_group
from geometry.SR_point import Point
from geometry.SR_line import LineSegment
from geometry.SR_polygon import PolygonLine, Triangle
from SR_Vessel import SR_hauptteile as H

MODULES = [SR_point, SR_line, SR_polygon, SR_polygon_group, H]


def seg(s):
    return (s.i.xy, s.j.xy)


def okseg(s):
    return s.i.isvalid and s.j.isvalid and all(math.isfinite(c) for p in s.ij for c in p.xy) and max(abs(ipt(s.i.xy)[k] - ipt(s.j.xy)[k]) for k in (0, 1)) > 20000


def chain(p):
    """ the vertices of a closed simple polygon given in order, as integers, or None """
    es = [seg(s) for s in p.segments]
    if len(es) < 3 or any(a[1] != b[0] for a, b in zip(es, es[1:] + es[:1])):
        return None
    ip = [ipt(e[0]) for e in es]
    if not is_simple(ip) or clearance(ip) < 20000:
        return None
    return ip


def cycle(es):
    """ undirected edges of integer points: vertices in order, if they are one simple cycle """
    nb = {}
    for a, b in es:
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    if not nb or any(len(v) != 2 for v in nb.values()):
        return None
    p0 = min(nb)
    out = [p0]
    prev, cur = p0, nb[p0][0]
    while cur != p0:
        out.append(cur)
        a, b = nb[cur]
        prev, cur = cur, (b if a == prev else a)
        if len(out) > len(nb):
            return None
    return out if len(out) == len(nb) == len(es) else None


class Probe(object):
    """ wraps the methods while active """

    def __init__(self, rec, rng, ctx, share=.05, full=25, cap=400):
        self.rec, self.rng, self.ctx = rec, rng, ctx
        self.share, self.full, self.cap = share, full, cap
        self.n = {}
        self.judged = {}
        self.busy = False
        self.undo = []
        self.viol = None
        self.simple = {}

    # ---- selection
    def take(self, name):
        k = self.n[name] = self.n.get(name, 0) + 1
        if self.busy:
            return False
        if k <= self.full:
            return True
        if self.judged.get(name, 0) >= self.cap:
            return False
        return self.rng.random() < self.share

    def wrap(self, owner, name, key, judge):
        orig = owner.__dict__.get(name)
        if orig is None or not (callable(orig) or isinstance(orig, property)):
            self.rec.skip('not-wrapped-' + key)
            return
        prop = isinstance(orig, property)
        f = orig.fget if prop else orig
        probe = self

        def g(*a, **k):
            if not probe.take(key):
                return f(*a, **k)
            before = probe.snapshot(a + tuple(k.values()))
            r = f(*a, **k)
            probe.busy = True
            try:
                probe.judged[key] = probe.judged.get(key, 0) + 1
                judge(r, before, *a, **k)
            except Violation as e:
                # reported at the end: the code under test may catch exceptions
                if probe.viol is None:
                    probe.viol = e
            finally:
                probe.busy = False
            return r
        self.undo.append((owner, name, orig))
        setattr(owner, name, property(g) if prop else g)

    def wrap_function(self, module, name, key, judge):
        orig = getattr(module, name, None)
        if orig is None:
            self.rec.skip('not-wrapped-' + key)
            return
        self.wrap(module, name, key, judge)
        new = getattr(module, name)
        for m in MODULES:
            if m is not module and m.__dict__.get(name) is orig:
                self.undo.append((m, name, orig))
                setattr(m, name, new)

    def snapshot(self, a):
        out = []
        for x in a:
            if isinstance(x, LineSegment):
                out.append(seg(x))
            elif isinstance(x, PolygonLine):
                out.append([seg(s) for s in x.segments])
            elif isinstance(x, Point):
                out.append(x.xy)
            else:
                out.append(None)
        return out

    def unchanged(self, before, a, key):
        self.rec.expect(self.snapshot(a) == before, 'operands', key, lambda: '%s changed its operands from %s to %s while: %s' % (key, before, self.snapshot(a), self.ctx))

    def answer(self, key, got, want, what):
        if want is None:
            self.rec.skip(key)
        else:
            self.rec.ok(key, want)
            if bool(got) is not want:
                self.rec.fail(key, 'got %r, expected %r for %s while: %s' % (got, want, what, self.ctx))

    # ---- judges
    def pair(self, key, attr):
        def j(r, before, s, other=None):
            if other is None or not okseg(s) or not okseg(other):
                self.rec.skip(key)
                return
            P = Pair(*(seg(s) + seg(other)))
            w = getattr(P, attr)
            self.answer(key, r, w, '%s, %s' % (seg(s), seg(other)))
            self.unchanged(before, (s, other), key)
        return j

    def common(self, r, before, s, other):
        import seg as S
        if not okseg(s) or not okseg(other):
            self.rec.skip('common-part')
            return
        S.judge_common(self.rec, r, Pair(*(seg(s) + seg(other))).common(), '%s, %s while: %s' % (seg(s), seg(other), self.ctx))
        self.unchanged(before, (s, other), 'common-part')

    def point_line(self, r, before, s, p):
        if not okseg(s):
            return self.rec.skip('on-line')
        w = side(*[ipt(x) for x in seg(s) + (p.xy,)])
        self.answer('on-line', r, None if w is None else w == 0, '%s, %s' % (p.xy, seg(s)))
        self.unchanged(before, (s, p), 'on-line')

    def point_box(self, r, before, s, p):
        self.answer('in-box', r, in_box(*[ipt(x) for x in seg(s) + (p.xy,)]), '%s, %s' % (p.xy, seg(s)))

    def outline(self, p):
        es = tuple(seg(s) for s in p.segments)
        if es not in self.simple:
            c = cycle([(ipt(a), ipt(b)) for a, b in es])
            if c is not None and (not is_simple(c) or clearance(c) < 20000):
                c = None
            self.simple[es] = c
        return self.simple[es]

    def inside(self, r, before, poly, p=None, plotit=False):
        c = self.outline(poly)
        if c is None or p is None:
            return self.rec.skip('inside')
        q = ipt(p.xy)
        es = edges(c)
        if any(on_seg(a, b, q) for a, b in es):
            w = False
        elif min(seg_dist(a, b, q) for a, b in es) < 2500:
            w = None
        else:
            w = parity(es, q)
        self.answer('inside', r, w, 'point %s of %s' % (p.xy, before[0]))
        self.unchanged(before[:1], (poly,), 'inside')

    def boundary(self, r, before, poly, p=None):
        c = self.outline(poly)
        if c is None or p is None:
            return self.rec.skip('boundary')
        q = ipt(p.xy)
        es = edges(c)
        w = any(on_seg(a, b, q) for a, b in es)
        if not w and min(seg_dist(a, b, q) for a, b in es) < 2500:
            w = None
        self.answer('boundary', r, w, 'point %s of %s' % (p.xy, before[0]))

    def turning(self, r, before, poly):
        c = chain(poly)
        if c is None:
            return self.rec.skip('cw')
        self.answer('cw', r, shoelace2(c) < 0, before[0])

    def ordering(self, r, before, poly):
        c = cycle([(ipt(a), ipt(b)) for a, b in before[0]])
        after = [seg(s) for s in poly.segments]
        if c is None:
            return self.rec.skip('order')  # not one cycle: not promised
        self.rec.expect(norm_edges(after) == norm_edges(before[0]), 'order', 'same edges', lambda: '%s ordered to %s while: %s' % (before[0], after, self.ctx))
        self.rec.expect(r is True and all(a[1] == b[0] for a, b in zip(after, after[1:] + after[:1])), 'order', 'cycle', lambda: '%s ordered to %s: %s while: %s' % (before[0], after, r, self.ctx))

    def triangles(self, r, before, poly, *a, **k):
        import poly as P
        c = self.outline(poly)
        # cuts of the vessel leave midpoints on straight walls: those have more solutions
        if c is None or any(cross(c[i - 2], c[i - 1], c[i]) == 0 for i in range(len(c))) or not P.well_shaped([(x / SC, y / SC) for x, y in c]):
            return self.rec.skip('overlap')
        P.judge_partition(self.rec, poly, [(x / SC, y / SC) for x, y in c], 'while %s' % self.ctx)
        self.unchanged(before[:1], (poly,), 'triangulate')

    def area(self, r, before, poly):
        import poly as P
        c = self.outline(poly)
        if c is None or not P.well_shaped([(x / SC, y / SC) for x, y in c]):
            return self.rec.skip('area')
        w = abs(shoelace2(c)) / 2. / SC / SC
        self.rec.near(r, w, 1e-6 + 1e-9 * w + P.heron_tol([P.tri_pts(t) for t in poly.triangles]), 'area', self.ctx)

    def closed(self, r, before, poly):
        es = before[0]
        if len({frozenset(e) for e in es}) != len(es):
            return self.rec.skip('closed')
        self.answer('closed', r, False if not es else all(a[1] == b[0] for a, b in zip(es, es[1:] + es[:1])) if not any(
            a[1] != b[0] and near_pt(a[1], b[0], 1e-3) for a, b in zip(es, es[1:] + es[:1])) else None, es)

    def walk(self, r, before, segments=(), startingpoint=None):
        es = [(ipt(s.i.xy), ipt(s.j.xy)) for s in segments]
        if startingpoint is not None or not es or any(a == b for a, b in es) or len({frozenset(e) for e in es}) != len(es):
            return self.rec.skip('walk')
        c = cycle(es)
        if c is not None:
            self.rec.expect(isinstance(r, PolygonLine) and norm_edges((ipt(a), ipt(b)) for a, b in pts_of(r)) == norm_edges(es), 'walk', 'cycle', lambda: 'got %r for the cycle %s while: %s' % (r, es, self.ctx))
            self.rec.expect(all(a[1] == b[0] for a, b in zip(pts_of(r), pts_of(r)[1:])), 'walk', 'in order', lambda: 'got %r for the cycle %s while: %s' % (r, es, self.ctx))
        elif r:
            # a part of the segments, which has to be a loop without branch
            got = [(ipt(a), ipt(b)) for a, b in pts_of(r)]
            deg = {}
            for a, b in es:
                deg[a] = deg.get(a, 0) + 1
                deg[b] = deg.get(b, 0) + 1
            self.rec.expect(cycle(got) is not None and set(norm_edges(got)) <= set(norm_edges(es)) and all(deg[a] == 2 for e in got for a in e),
                            'walk', 'loop', lambda: 'got %s for %s while: %s' % (got, es, self.ctx))
        else:
            self.rec.ok('walk', 'none')

    def tri_pair(self, key):
        def j(r, before, t, other):
            A, B = self.outline(t), self.outline(other)
            if A is None or B is None:
                return self.rec.skip(key)
            A, B = list(A), list(B)
            for q in (A, B):
                if shoelace2(q) < 0:
                    q.reverse()
            # the smallest signed distance of the other one from an edge: 0 touching, > 0 apart, < 0 overlapping
            gap = max(min(-cross(a, b, q) / dist(a, b) for q in v) for u, v in ((A, B), (B, A)) for a, b in edges(u))
            if set(A) == set(B):
                w = dict(congruent=True).get(key)
            elif key == 'congruent':
                w = False if all(min(dist(p, q) for q in B) > 20000 for p in set(A) - set(B)) else None
            elif key == 'tri-overlap':
                w = False if gap >= 0 else None
            else:
                w = None
            self.answer(key, r, w, '%s and %s' % tuple(before[:2]))
            self.unchanged(before, (t, other), key)
        return j

    def disjunct(self, r, before, p, other):
        A, B = self.outline(p), self.outline(other)
        if A is None or B is None:
            return self.rec.skip('disjunct')
        self.rec.ok('disjunct', bool(r))

    def loose(self, r, before, s, other):
        a, b = seg(s), seg(other)
        w = type(s) is type(other) and (a == b or a == b[::-1])
        if not w and type(s) is type(other) and any(near_pt(p, q, 1e-3) for p in a for q in b if p != q):
            w = None
        self.answer('loose-equal', r, w, '%s, %s' % (a, b))

    def subset(self, r, before, p, other):
        A, B = [{frozenset(ipt(x) for x in e) for e in b} for b in before[:2]]
        pts = {x for e in A for x in e} | {x for e in B for x in e}
        if len(pts) < 60 and any(near_pt(x, y, 1e5) for x, y in itertools.combinations(pts, 2)):
            return self.rec.skip('subset')
        self.answer('subset', r, B <= A, '%s and %s' % tuple(before[:2]))

    def hull(self, r, before, point_set):
        import gen
        ip = sorted({ipt(p) for p in point_set})
        h = gen.hull(ip)
        if len(h) < 3:
            return self.rec.skip('hull')
        if clearance(h) < 20000:
            return self.rec.skip('hull')
        got = {ipt(a) for a, b in pts_of(r)}
        more = got - set(h)  # points on straight sections may stay, if rounding does not show them to be collinear
        self.rec.expect(got >= set(h) and all(min(seg_dist(a, b, p) for a, b in edges(h)) < 100 for p in more), 'hull', len(h), lambda: 'got %s, expected %s while: %s' % (got, h, self.ctx))

    # ---- installation
    def __enter__(self):
        W = self.wrap
        for name, key, attr in (('touch', 'touch', 'touch'), ('continuous', 'continuous', 'continuous'), ('is_parallel', 'parallel', 'parallel'),
                                ('is_collinear', 'collinear', 'collinear'), ('intersection_on_segment', 'on-segment', 'on_segment'),
                                ('intersection_on_endpoint', 'on-endpoint', 'on_endpoint')):
            W(LineSegment, name, key, self.pair(key, attr))
        W(LineSegment, 'common_part', 'common-part', self.common)
        W(LineSegment, 'is_point_on_line', 'on-line', self.point_line)
        W(LineSegment, 'is_internal_point', 'in-box', self.point_box)
        W(LineSegment, 'loose_equal', 'loose-equal', self.loose)
        W(PolygonLine, 'is_internal_point', 'inside', self.inside)
        W(PolygonLine, 'is_on_boundary', 'boundary', self.boundary)
        W(PolygonLine, 'loose_subset', 'subset', self.subset)
        W(PolygonLine, 'iscw', 'cw', self.turning)
        W(PolygonLine, 'isclosed', 'closed', self.closed)
        W(PolygonLine, 'order', 'order', self.ordering)
        W(PolygonLine, 'triangulate', 'triangulate', self.triangles)
        W(PolygonLine, 'disjunct', 'disjunct', self.disjunct)
        W(Triangle, 'congruent', 'congruent', self.tri_pair('congruent'))
        W(Triangle, 'overlap', 'tri-overlap', self.tri_pair('tri-overlap'))
        self.wrap_function(SR_polygon, 'walk_segments', 'walk', self.walk)
        self.wrap_function(SR_polygon, 'convex_hull', 'hull', self.hull)
        return self

    def __exit__(self, *exc):
        for owner, name, orig in reversed(self.undo):
            setattr(owner, name, orig)
        self.undo = []
        if self.viol is not None and exc[0] is None:
            raise self.viol
        return False
