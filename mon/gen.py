# -*- coding: utf-8 -*-
""" generators of the hostile and ordinary inputs. coordinates are decimals of at most 6 digits (exact in 1e-8 units) """
import math
from common import ipt, is_simple, clearance, Skip, dist, cross, shoelace2

# (name, unit of the grid, extent in units)
GRIDS = [('int', 1, 12), ('int', 1, 100), ('half', .5, 40), ('64th', 1 / 64., 640), ('dec1', .1, 100), ('dec2', .01, 2000),
         ('dec3', .001, 9000), ('mm', 1, 4000), ('quarter', .25, 30)]
# very small and very large ones
EXTREME = [('tiny', .0001, 300), ('small', .0005, 60), ('huge', 1000, 900), ('wide', .5, 400000)]


def rnd(x):
    return round(x, 6)


class Grid(object):
    """ a coordinate lattice somewhere in the plane """

    def __init__(self, rng, names=None, far=True, extreme=0):
        self.name, self.u, self.n = rng.choice(EXTREME if rng.random() < extreme else [g for g in GRIDS if names is None or g[0] in names])
        self.ox = self.oy = 0
        if far and rng.random() < .6:
            # all quadrants, straddling the axes, far away
            s = rng.choice([1, 1, 2, 5])
            self.ox = rng.randint(-s * self.n, s * self.n)
            self.oy = rng.randint(-s * self.n, s * self.n)
        self.rng = rng

    def at(self, a, b):
        """ the lattice point a, b """
        return rnd((a + self.ox) * self.u), rnd((b + self.oy) * self.u)

    def ij(self):
        return self.rng.randint(0, self.n), self.rng.randint(0, self.n)

    def pt(self):
        return self.at(*self.ij())


def segment_pair(rng, g):
    """ two segments in a relation of interest: ((a, b), (c, d)), name; lattice coordinates """
    kind = rng.choice(['random', 'random', 'cross', 'tee', 'tee', 'share', 'share', 'collinear', 'collinear', 'parallel',
                       'axis', 'axis', 'nearpar', 'equal', 'reversed', 'endline', 'short', 'almostaxis', 'longshort'])
    R = lambda: (rng.randint(0, g.n), rng.randint(0, g.n))

    def vec():
        m = max(2, g.n // rng.choice([1, 2, 4, 8]))
        while True:
            v = rng.randint(-m, m), rng.randint(-m, m)
            if v != (0, 0):
                return v
    a = R()
    if kind == 'random':
        s = (a, R(), R(), R())
    elif kind == 'short':
        b = R()
        c = (b[0] + rng.randint(-3, 3), b[1] + rng.randint(-3, 3))
        s = (a, b, c, (c[0] + rng.randint(-3, 3), c[1] + rng.randint(-3, 3)))
    elif kind == 'cross':
        v, w = vec(), vec()
        k, l = rng.randint(1, 3), rng.randint(1, 3)
        m = R()
        s = ((m[0] - v[0], m[1] - v[1]), (m[0] + k * v[0], m[1] + k * v[1]), (m[0] - w[0], m[1] - w[1]), (m[0] + l * w[0], m[1] + l * w[1]))
    elif kind == 'tee':  # an endpoint inside the other
        v, w = vec(), vec()
        k, l = rng.randint(1, 4), rng.randint(1, 4)
        m = R()
        s = ((m[0] - l * v[0], m[1] - l * v[1]), (m[0] + k * v[0], m[1] + k * v[1]), m, (m[0] + w[0], m[1] + w[1]))
    elif kind == 'share':
        v, w = vec(), vec()
        s = (a, (a[0] + v[0], a[1] + v[1]), a, (a[0] + w[0], a[1] + w[1]))
    elif kind in ('collinear', 'parallel'):
        v = vec()
        if rng.random() < .35:
            v = rng.choice([(v[0], 0), (0, v[1])])
            if v == (0, 0):
                v = (1, 0)
        if rng.random() < .6:
            q = math.gcd(*v)
            v = v[0] // q, v[1] // q
            m = rng.choice([3, 8, 30])
        else:
            m = 4
        t = [rng.randint(-m, m) for _ in range(4)]
        o = (0, 0)
        if kind == 'parallel':
            while o[0] * v[1] - o[1] * v[0] == 0:
                o = rng.randint(-4, 4), rng.randint(-4, 4)
        s = tuple((a[0] + x * v[0] + (o[0] if k > 1 else 0), a[1] + x * v[1] + (o[1] if k > 1 else 0)) for k, x in enumerate(t))
    elif kind == 'axis':
        b = (R()[0], a[1]) if rng.random() < .5 else (a[0], R()[1])
        c = rng.choice([R(), (a[0], R()[1]), (R()[0], a[1]), a, b])
        d = rng.choice([(c[0], R()[1]), (R()[0], c[1]), R()])
        s = (a, b, c, d)
    elif kind == 'nearpar':
        v = vec()
        k = rng.randint(1, 3)
        c = (a[0] + rng.randint(-2, 2), a[1] + rng.randint(-2, 2))
        s = (a, (a[0] + v[0], a[1] + v[1]), c, (c[0] + k * v[0] + rng.randint(-1, 1), c[1] + k * v[1] + rng.randint(-1, 1)))
    elif kind == 'almostaxis':  # a step of the lattice or two off an axis
        n = max(2, g.n)
        b, d = [(rng.choice([-1, 1]) * rng.randint(n // 2, n), rng.randint(-2, 2)) for _ in range(2)]
        if rng.random() < .5:
            b = b[::-1]
        if rng.random() < .5:
            d = d[::-1]
        c = rng.choice([a, R()])
        s = (a, (a[0] + b[0], a[1] + b[1]), c, (c[0] + d[0], c[1] + d[1]))
    elif kind == 'longshort':  # a long and a short one, almost parallel or on one line
        k = max(2, g.n // 2)
        v = rng.choice([(1, 0), (0, 1), (1, 1), (2, 1), (-1, 3)])
        c = (a[0] + v[0] * rng.randint(-2, 2) + rng.randint(0, 1), a[1] + v[1] * rng.randint(-2, 2))
        s = (a, (a[0] + k * v[0] + rng.randint(-1, 1), a[1] + k * v[1] + rng.randint(-1, 1)), c, (c[0] + v[0], c[1] + v[1]))
    elif kind == 'endline':  # an endpoint on the line of the other, outside the segment
        v, w = vec(), vec()
        k = rng.choice([-2, -1, 2, 3])
        m = (a[0] + k * v[0], a[1] + k * v[1])
        s = (a, (a[0] + v[0], a[1] + v[1]), m, (m[0] + w[0], m[1] + w[1]))
    else:
        v = vec()
        b = (a[0] + v[0], a[1] + v[1])
        s = (a, b, a, b) if kind == 'equal' else (a, b, b, a)
    a, b, c, d = s
    if rng.random() < .5:
        a, b = b, a
    if rng.random() < .5:
        c, d = d, c
    if rng.random() < .5:
        a, b, c, d = c, d, a, b
    if a == b or c == d:
        raise Skip()
    return [g.at(*p) for p in (a, b, c, d)], kind


# --------------------------------------------------------------------------------------------------------------------
# simple closed polygons, as lists of lattice points

def _star(rng, n, m):
    an = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    lo = rng.choice([.15, .3, .6, .9])
    return [(int(round(m / 2. + m / 2. * rng.uniform(lo, 1) * math.cos(t))), int(round(m / 2. + m / 2. * rng.uniform(lo, 1) * math.sin(t)))) for t in an]


def _convex(rng, n, m):
    an = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    a, b = rng.uniform(.2, 1), rng.uniform(.2, 1)
    ps = [(int(round(m / 2. * (1 + a * math.cos(t)))), int(round(m / 2. * (1 + b * math.sin(t))))) for t in an]
    return hull(ps)


def hull(ps):
    """ exact convex hull, ccw, without collinear points """
    ps = sorted(set(ps))
    if len(ps) < 3:
        return ps
    def half(q):
        r = []
        for p in q:
            while len(r) >= 2 and cross(r[-2], r[-1], p) <= 0:
                r.pop()
            r.append(p)
        return r
    return half(ps)[:-1] + half(ps[::-1])[:-1]


def _skyline(rng, n, m):
    k = max(2, n // 2)
    xs = [round(m * q / float(k)) for q in range(k + 1)]
    hs = [rng.randint(max(1, m // 10), m) for _ in range(k)]
    for q in range(1, k):
        if hs[q] == hs[q - 1]:
            hs[q] = hs[q] + 1
    ps = [(xs[0], 0)]
    for q in range(k):
        ps += [(xs[q], hs[q]), (xs[q + 1], hs[q])]
    ps.append((xs[k], 0))
    return ps[::-1]


def _comb(rng, n, m):
    k = max(2, n // 4)
    w = m / float(2 * k - 1)
    low = max(1, m // 8)
    ps = [(0, 0)]
    for q in range(k):
        t = rng.randint(max(low + 1, m // 3), max(low + 2, m))
        ps += [(round(2 * q * w), t), (round((2 * q + 1) * w), t)]
        if q < k - 1:
            ps += [(round((2 * q + 1) * w), low), (round((2 * q + 2) * w), low)]
    ps.append((round((2 * k - 1) * w), 0))
    return ps[::-1]




def _zigzag(rng, n, m):
    k = max(2, n // 2)
    top = [(round(m * q / float(k)), m // 2 + (m // 4 if q % 2 else -(m // 8)) + rng.randint(-m // 16, m // 16)) for q in range(k + 1)]
    th = max(1, m // 6)
    return [(x, y - th) for x, y in top] + top[::-1]


def _ell(rng, n, m):
    """ L, U, T, plus and H shapes """
    a, b = sorted(rng.sample(range(1, max(4, m)), 2)) if m > 3 else (1, 2)
    s = rng.choice('LUTPH')
    c, d = sorted(rng.sample(range(1, max(4, m)), 2)) if m > 3 else (1, 2)
    if s == 'L':
        return [(0, 0), (m, 0), (m, c), (a, c), (a, m), (0, m)]
    if s == 'U':
        return [(0, 0), (m, 0), (m, m), (b, m), (b, c), (a, c), (a, m), (0, m)]
    if s == 'T':
        return [(a, 0), (b, 0), (b, c), (m, c), (m, m), (0, m), (0, c), (a, c)]
    if s == 'P':
        return [(a, 0), (b, 0), (b, c), (m, c), (m, d), (b, d), (b, m), (a, m), (a, d), (0, d), (0, c), (a, c)]
    return [(0, 0), (a, 0), (a, c), (b, c), (b, 0), (m, 0), (m, m), (b, m), (b, d), (a, d), (a, m), (0, m)]


def _vessel(rng, n, m):
    """ a tall body with flat cones at the ends, like the section of a vessel """
    r = max(2, m // rng.choice([3, 4, 8]))
    t = max(1, m // rng.choice([20, 50]))
    h = m
    lo, up = rng.choice([1, -1, 0]) * t, rng.choice([1, -1, 0]) * t
    ps = [(-r, 0), (0, -lo), (r, 0), (r, h // 2), (r, h), (0, h + up), (-r, h), (-r, h // 3)]
    return ps


def _spiral(rng, n, m):
    """ a rectangular spiral corridor """
    t = rng.randint(1, 3)
    w = m // (4 * t + 2)
    if w < 1:
        return []
    out, inn = [(0, 0)], [(0, w)]
    for k in range(t):
        e = 2 * k * w
        out += [(m - e, e), (m - e, m - e), (e, m - e), (e, e + 2 * w)]
        inn += [(m - e - w, e + w), (m - e - w, m - e - w), (e + w, m - e - w), (e + w, e + 3 * w)]
    k = rng.randint(4, len(out))
    return out[:k] + inn[:k][::-1]


SHAPES = [('star', _star, 3), ('convex', _convex, 2), ('skyline', _skyline, 2), ('comb', _comb, 2), ('zigzag', _zigzag, 1), ('spiral', _spiral, 2),
          ('letter', _ell, 2), ('vessel', _vessel, 1), ('triangle', lambda r, n, m: [(r.randint(0, m), r.randint(0, m)) for _ in range(3)], 1),
          ('quad', lambda r, n, m: _star(r, 4, m), 1), ('rect', lambda r, n, m: (lambda w, h: [(0, 0), (w, 0), (w, h), (0, h)])(r.randint(1, m), r.randint(1, m)), 1)]


def simple_polygon(rng, nmax=14, grid=None, midpoints=None, minclear=.1, nmin=3, shapes=None):
    """
    a simple closed polygon: list of coordinates, name. every vertex is at least minclear (in coordinates: relative to
    the unit, at least 0.05) away from the other edges. any start, any direction, possibly with vertices in straight
    sections
    """
    for _ in range(60):
        g = grid or Grid(rng)
        name, f, _w = rng.choices(SHAPES if shapes is None else [s for s in SHAPES if s[0] in shapes],
                                  [s[2] for s in SHAPES if shapes is None or s[0] in shapes])[0]
        n = rng.randint(nmin, nmax)
        m = g.n
        ps = f(rng, n, m)
        # vertices within straight sections
        if midpoints is None:
            mp = rng.random() < .3
        else:
            mp = midpoints
        if mp and ps:
            q = []
            for a, b in zip(ps, ps[1:] + ps[:1]):
                q.append(a)
                k = math.gcd(b[0] - a[0], b[1] - a[1])
                if k >= 2 and rng.random() < .4:
                    for t in sorted(rng.sample(range(1, k), min(k - 1, rng.choice([1, 1, 2, 3])))):
                        q.append((a[0] + (b[0] - a[0]) // k * t, a[1] + (b[1] - a[1]) // k * t))
            ps = q
        if len(ps) < 3 or len(set(ps)) != len(ps):
            continue
        # symmetries of the lattice
        sw, fx, fy = rng.random() < .5, rng.choice([1, -1]), rng.choice([1, -1])
        ps = [((y, x) if sw else (x, y)) for x, y in ps]
        ps = [(x * fx, y * fy) for x, y in ps]
        k = rng.randrange(len(ps))
        ps = ps[k:] + ps[:k]
        if rng.random() < .5:
            ps = ps[::-1]
        pts = [g.at(*p) for p in ps]
        if not is_simple([ipt(p) for p in pts]):
            continue
        if clearance(pts) < max(.05, minclear * min(1, g.u)):
            continue
        return pts, name + '/' + g.name
    raise Skip()
