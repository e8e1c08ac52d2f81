# -*- coding: utf-8 -*-
"""
Shared parts of the monitors: exact arithmetic on the model coordinates, recorder, per-case watchdog.

The coordinates the code under test works with are decimals with at most 8 digits, so the oracles work with exact
integers in units of 1e-8 (dyadic and decimal inputs are both exact there). An oracle never asks the code under test.
"""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction as F

SC = 10 ** 8


def I(x):
    return int(round(x * SC))


def ipt(p):
    return int(round(p[0] * SC)), int(round(p[1] * SC))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def sgn(x):
    return (x > 0) - (x < 0)


def on_seg(a, b, p):
    """ exact, integers: p on the closed segment a-b """
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and \
        min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def seg_dist(a, b, p):
    """ distance of p from the closed segment a-b, any unit """
    dx, dy = b[0] - a[0], b[1] - a[1]
    n2 = dx * dx + dy * dy
    if n2 == 0:
        return dist(a, p)
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy)
    if t <= 0:
        return dist(a, p)
    if t >= n2:
        return dist(b, p)
    return abs(cross(a, b, p)) / math.sqrt(n2)


def segs_meet(a, b, c, d):
    """ exact: the closed segments have a common point """
    s1, s2 = sgn(cross(a, b, c)), sgn(cross(a, b, d))
    s3, s4 = sgn(cross(c, d, a)), sgn(cross(c, d, b))
    if s1 * s2 < 0 and s3 * s4 < 0:
        return True
    return on_seg(a, b, c) or on_seg(a, b, d) or on_seg(c, d, a) or on_seg(c, d, b)


def line_meet(a, b, c, d):
    """ exact: (t, u, den) with the lines meeting in a + t (b - a) = c + u (d - c); None if parallel """
    r = (b[0] - a[0], b[1] - a[1])
    s = (d[0] - c[0], d[1] - c[1])
    den = r[0] * s[1] - r[1] * s[0]
    if den == 0:
        return None
    q = (c[0] - a[0], c[1] - a[1])
    return F(q[0] * s[1] - q[1] * s[0], den), F(q[0] * r[1] - q[1] * r[0], den), den


def shoelace2(pts):
    """ twice the signed area """
    s = 0
    n = len(pts)
    for k in range(n):
        a, b = pts[k], pts[(k + 1) % n]
        s += a[0] * b[1] - a[1] * b[0]
    return s


def area_f(pts):
    """ signed area as a float, exact arithmetic inside """
    return float(F(shoelace2([ipt(p) for p in pts]), 2 * SC * SC))


def edges(pts):
    n = len(pts)
    return [(pts[k], pts[(k + 1) % n]) for k in range(n)]


def parity(segs, p):
    """ exact even-odd rule for a set of integer segments; p must not be on the boundary """
    c = False
    for a, b in segs:
        if (a[1] > p[1]) != (b[1] > p[1]):
            v = cross(a, b, p)
            if b[1] < a[1]:
                v = -v
            if v > 0:
                c = not c
    return c


def is_simple(pts):
    """ exact: a closed chain of integer points is a simple polygon (touching counts as not simple) """
    n = len(pts)
    if n < 3 or len(set(pts)) != n:
        return False
    e = edges(pts)
    for i in range(n):
        a, b = e[i]
        # consecutive: only the common vertex
        c, d = e[(i + 1) % n]
        if on_seg(a, b, d) or on_seg(c, d, a):
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if segs_meet(a, b, e[j][0], e[j][1]):
                return False
    return shoelace2(pts) != 0


def clearance(pts):
    """ the smallest distance of a vertex and a not adjacent edge, and the smallest edge length """
    e = edges(pts)
    n = len(pts)
    m = min(dist(a, b) for a, b in e)
    for k, p in enumerate(pts):
        for j in range(n):
            if j == k or (j + 1) % n == k:
                continue
            m = min(m, seg_dist(e[j][0], e[j][1], p))
    return m


class Timeout(BaseException):
    pass


class Violation(Exception):
    """ the monitor saw the property broken """


class Skip(Exception):
    """ the generated input is out of the domain of the property """


class Rec(object):
    """ what the monitors observed """

    def __init__(self, prop):
        self.prop = prop
        self.judged = {}      # rule: number of judged events
        self.skipped = {}     # rule: number of events too close to a tolerance to be judged
        self.outcomes = {}    # rule: {outcome: count}
        self.sigs = set()     # distinct inputs
        self.families = {}
        self.cases = 0
        self.nontrivial = 0
        self.samples = []
        self.viol = []
        self.known = {}
        self.case = None
        self.maxcpu = 0.

    def ok(self, rule, outcome=None, n=1):
        self.judged[rule] = self.judged.get(rule, 0) + n
        if outcome is not None:
            o = self.outcomes.setdefault(rule, {})
            o[str(outcome)] = o.get(str(outcome), 0) + n

    def skip(self, rule, n=1):
        self.skipped[rule] = self.skipped.get(rule, 0) + n

    def expect(self, cond, rule, outcome=None, detail=None):
        """ the oracle's verdict on one event """
        self.ok(rule, outcome)
        if not cond:
            self.fail(rule, detail() if callable(detail) else detail)

    def fail(self, rule, detail):
        raise Violation('%s: %s' % (rule, detail))

    def eq(self, got, want, rule, ctx=None, outcome=None):
        self.ok(rule, want if outcome is None else outcome)
        if got != want:
            self.fail(rule, 'got %r, expected %r%s' % (got, want, '' if ctx is None else ' for %s' % (ctx,)))

    def near(self, got, want, tol, rule, ctx=None):
        self.ok(rule)
        if got is None or not abs(got - want) <= tol:
            self.fail(rule, 'got %r, expected %r (+- %.3g)%s' % (got, want, tol, '' if ctx is None else ' for %s' % (ctx,)))

    def sig(self, x):
        self.sigs.add(hashlib.blake2b(repr(x).encode(), digest_size=6).hexdigest())

    def known_finding(self, key, what):
        self.known.setdefault(key, []).append(what)

    def dump(self):
        return dict(judged=self.judged, skipped=self.skipped, outcomes=self.outcomes, sigs=sorted(self.sigs)[:200000],
                    families=self.families, cases=self.cases, samples=self.samples, viol=self.viol, known=self.known,
                    maxcpu=self.maxcpu)


def rejected(f, *a, **k):
    """ the call is refused with an exception """
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def near_pt(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def pts_of(o):
    """ coordinates of the segments of a polygonline / list of segments """
    segs = o.segments if hasattr(o, 'segments') else o
    return [(s.i.xy, s.j.xy) for s in segs]


def norm_edges(es):
    """ undirected edges, in a canonical order """
    return sorted(tuple(sorted(e)) for e in es)


def edges_match(got, want, tol, directed=False):
    """ the two lists of edges are the same sets within tol (undirected unless directed) """
    if len(got) != len(want):
        return False
    left = list(want)
    for a, b in got:
        for k, (c, d) in enumerate(left):
            if near_pt(a, c, tol) and near_pt(b, d, tol) or (not directed and near_pt(a, d, tol) and near_pt(b, c, tol)):
                left.pop(k)
                break
        else:
            return False
    return not left
