# -*- coding: utf-8 -*-
"""
Reference answers for points and segments, exact integer arithmetic (unit 1e-8).

Every function returns True / False or None, if the configuration is closer to a numerical tolerance than the code
promises to decide (its points are rounded to 8 decimals and are equal within 1e-5).
"""
import math
from common import ipt, cross, dist, line_meet, sgn, SC

NEAR = 2000   # 2e-5, twice the tolerance of the equality of points
FAR = 10000   # 1e-4, points that are this far away are different


def same(p, q):
    if p == q:
        return True
    if abs(p[0] - q[0]) > FAR or abs(p[1] - q[1]) > FAR:
        return False
    return None


def on_line(a, b, p):
    """ p on the infinite line """
    c = cross(a, b, p)
    if c == 0:
        return True
    d = abs(c) / dist(a, b)
    return False if d > NEAR and abs(c) > 2e-8 * SC * SC * max(1., dist(a, b) / SC) else None


def side(a, b, p):
    """ 1 left, -1 right, 0 on the line, None undecided """
    o = on_line(a, b, p)
    if o is None:
        return None
    return 0 if o else sgn(cross(a, b, p))


def in_box(a, b, p):
    r = True
    for k in (0, 1):
        lo, hi = min(a[k], b[k]), max(a[k], b[k])
        if lo <= p[k] <= hi:
            continue
        if p[k] < lo - NEAR or p[k] > hi + NEAR:
            return False
        r = None
    return r


class Pair(object):
    """ the relations of two segments a-b and c-d, none of them null """

    def __init__(self, a, b, c, d):
        self.fa, self.fb, self.fc, self.fd = a, b, c, d
        self.a, self.b, self.c, self.d = a, b, c, d = ipt(a), ipt(b), ipt(c), ipt(d)
        self.l1, self.l2 = dist(a, b), dist(c, d)
        self.m = max(max(abs(x) for x in p) for p in (a, b, c, d)) / SC
        v, w = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
        self.den = v[0] * w[1] - v[1] * w[0]
        self.dot = v[0] * w[0] + v[1] * w[1]
        self.sin = abs(self.den) / (self.l1 * self.l2)
        self.parallel = True if self.den == 0 else (False if self.sin > 1e-6 else None)
        self._meet = None

    @property
    def err(self):
        """ estimate of the error of the calculated intersection point, in coordinates """
        l1, l2 = self.l1 / SC, self.l2 / SC
        return 9e-15 * self.m ** 2 * (l1 + l2) / (l1 * l2 * self.sin)

    @property
    def collinear(self):
        """ both endpoints of the other on the line of the first """
        x, y = on_line(self.a, self.b, self.c), on_line(self.a, self.b, self.d)
        if x is False or y is False:
            return False
        return None if x is None or y is None else True

    @property
    def commons(self):
        """ the common endpoints, None if undecided """
        r = []
        for p in (self.a, self.b):
            for q in (self.c, self.d):
                s = same(p, q)
                if s is None:
                    return None
                if s:
                    r.append(p)
        return r

    @property
    def touch(self):
        c = self.commons
        return None if c is None else len(c) == 1

    @property
    def continuous(self):
        t = self.touch
        if not t:
            return t
        return self.b == self.c or self.a == self.d

    @property
    def meet(self):
        """ exact intersection point of the lines in integer units, as fractions """
        if self._meet is None:
            t, u, _ = line_meet(self.a, self.b, self.c, self.d)
            x = self.a[0] + t * (self.b[0] - self.a[0])
            y = self.a[1] + t * (self.b[1] - self.a[1])
            self._meet = (x, y), t, u
        return self._meet

    @property
    def within(self):
        """ not parallel: the intersection point of the lines is on both segments """
        (x, y), t, u = self.meet
        r = True
        for q, l in ((t, self.l1), (u, self.l2)):
            if 0 <= q <= 1:
                if (q == 0 or q == 1 or min(q, 1 - q) * l < NEAR) and self.err > 2e-9:
                    r = None  # at the end, the rounding decides
                continue
            if max(-q, q - 1) * l > NEAR and self.err < 1e-6:
                return False
            r = None
        return r

    @property
    def at_endpoint(self):
        """ not parallel: the intersection point of the lines is an endpoint """
        (x, y), t, u = self.meet
        if (t in (0, 1) or u in (0, 1)) and self.err < 1e-6:
            return True
        if self.err < 1e-5 and min(dist((float(x), float(y)), p) for p in (self.a, self.b, self.c, self.d)) > 2 * FAR:
            return False
        return None

    @property
    def on_segment(self):
        """ the documented predicate: the segments have an intersection and do not only touch """
        if self.parallel is None or self.touch is None:
            return None
        if self.parallel or self.touch:
            return False
        return self.within

    @property
    def on_endpoint(self):
        if self.parallel is None:
            return None
        if self.parallel:
            return False
        if self.touch:
            return True
        return self.at_endpoint

    def common(self):
        """
        the common part: None (undecided), ('none',), ('point', (x, y), tolerance), ('segment', p, q)
        coordinates as floats
        """
        if self.parallel is None or self.commons is None:
            return None
        if self.parallel:
            if self.collinear is None:
                return None
            if not self.collinear:
                return 'none',
            # on the line
            k = 0 if abs(self.b[0] - self.a[0]) >= abs(self.b[1] - self.a[1]) else 1
            s1 = sorted([self.a, self.b], key=lambda p: p[k])
            s2 = sorted([self.c, self.d], key=lambda p: p[k])
            lo, hi = max(s1[0], s2[0], key=lambda p: p[k]), min(s1[1], s2[1], key=lambda p: p[k])
            if lo == hi:
                return 'point', (lo[0] / SC, lo[1] / SC), 2e-8
            if dist(lo, hi) < FAR:
                return None
            # endpoints not identical but close to each other would be undecided as well
            for x, y in ((s1[0], s2[0]), (s1[1], s2[1]), (s1[0], s2[1]), (s1[1], s2[0])):
                if x != y and dist(x, y) < FAR:
                    return None
            if lo[k] > hi[k]:
                return 'none',
            return 'segment', (lo[0] / SC, lo[1] / SC), (hi[0] / SC, hi[1] / SC)
        if self.touch:
            p = self.commons[0]
            return 'point', (p[0] / SC, p[1] / SC), 2e-8
        w = self.within
        if w is None:
            return None
        if not w:
            return 'none',
        (x, y), _, _ = self.meet
        if self.err > 1e-6:
            return None
        return 'point', (float(x) / SC, float(y) / SC), 2e-8 + self.err


def angle_deg(v, w):
    """ the angle of two vectors, 0..180 """
    return abs(math.degrees(math.atan2(v[0] * w[1] - v[1] * w[0], v[0] * w[0] + v[1] * w[1])))
