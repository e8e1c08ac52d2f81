# -*- coding: utf-8 -*-
"""
Vessels with known answers. A model is built from its dimensions only: the parts to hand to the code under test, the
rooms with their outlines (in the simplified shape the analysis works with), their walls, and which side of which part
the pressure of a room acts on. Nothing here asks the code under test.
"""
import math
from common import Skip


def hg(d):
    """ height of the roof that represents a dished end """
    return max(.1, d / 1000.)


def outline(ph, right):
    """ the symmetric outline from its right half, bottom to top; a point on the axis is not doubled """
    r = [(ph + x, y) for x, y in right]
    l = [(ph - x, y) for x, y in reversed(right) if x != 0]
    return r + l


class Model(object):
    def __init__(self, family):
        self.family = family
        self.parts = []      # (class name, kwargs, {late: kwargs by name})
        self.exp = {}        # part: [inner rooms, outer rooms, indifferent rooms]
        self.rooms = []      # dict(outline, outer, inner: list of sets)
        self.skip_intex = set()
        self.torus = False   # the section of a ring-shaped room, a left and a right area of the same parts
        self.note = ''
        self.r0 = None
        self.segments = 0    # of the simplified section, if the model knows: the loops are searched among all their subsets

    def part(self, cls, inn=(), out=(), ind=(), **kw):
        self.parts.append((cls, kw))
        self.exp[kw['name']] = [set(inn), set(out), set(ind)]

    def shape(self):
        return [(c, sorted(k.items(), key=str)) for c, k in self.parts]

    def overlaps(self):
        """ pairs of rooms and their common parts """
        r = {}
        for i in range(len(self.rooms)):
            for j in range(i):
                c = self.rooms[i]['outer'] & self.rooms[j]['outer']
                if c:
                    r[frozenset((i, j))] = c
        return r


class Stack(object):
    """ a tower of shells with ends and dividing ends """

    def __init__(self, rng, n, ph, v0, pre='', d=None, samed=True, kinds=('klo', 'kor', 'fla'), allowin=True, dividers=None, hs=None):
        self.ph, self.v0, self.pre = ph, v0, pre
        self.n = n
        self.hs = hs or [rng.choice([1, 1.5, 2, 2.5, 3]) for _ in range(n)]
        self.ds = [d or rng.choice([2, 3, 4])]
        for i in range(n):
            self.ds.append(self.ds[-1] if samed or rng.random() < .6 else rng.choice([2, 3, 4]))
        self.lv = [v0]
        for h in self.hs:
            self.lv.append(self.lv[-1] + h)
        self.div = [True] + [rng.random() < .5 if dividers is None else dividers[i] for i in range(n - 1)] + [True]
        self.roomof = []
        r = -1
        for i in range(n):
            r += bool(self.div[i])
            self.roomof.append(r)
        self.nr = r + 1
        self.clo = {}
        for i in range(n + 1):
            if self.div[i]:
                k = rng.choice(kinds)
                if i == 0:
                    o = -1 if not allowin or rng.random() < .8 else 1
                elif i == n:
                    o = 1 if not allowin or rng.random() < .8 else -1
                else:
                    o = rng.choice([1, -1])
                self.clo[i] = (k, o)

    def end(self, i):
        """ right half of the closure at level i, from the axis """
        k, o = self.clo[i]
        d, v = self.ds[i], self.lv[i]
        return ([] if k == 'fla' else [(0, v + o * hg(d))]) + [(d / 2., v)]

    def right(self, r):
        ix = [i for i in range(self.n) if self.roomof[i] == r]
        i0, i1 = ix[0], ix[-1] + 1
        return self.end(i0) + [(self.ds[i] / 2., self.lv[i]) for i in range(i0 + 1, i1)] + self.end(i1)[::-1]

    def add_to(self, m, off=0, outside=None):
        """ the parts and rooms. off: number of the first room. outside: the room around, if any """
        out = () if outside is None else (outside,)
        names = [set() for _ in range(self.nr)]
        for i in range(self.n):
            nm = '%sma%d' % (self.pre, i)
            m.part('Mantel', inn=[self.roomof[i] + off], out=out, name=nm, pos_v=self.lv[i], pos_h=self.ph, d=(self.ds[i], self.ds[i + 1]), h=self.hs[i])
            names[self.roomof[i]].add(nm)
        for i, (k, o) in sorted(self.clo.items()):
            B = (self.roomof[i - 1] + off,) if i > 0 else out
            A = (self.roomof[i] + off,) if i < self.n else out
            nm = '%sbo%d' % (self.pre, i)
            if k == 'fla':
                m.part('Flachboden', ind=A + B, name=nm, pos_v=self.lv[i], pos_h=self.ph, d=self.ds[i])
            else:
                m.part('Klopperboden' if k == 'klo' else 'Korbbogenboden', inn=B if o == 1 else A, out=A if o == 1 else B,
                       name=nm, pos_v=self.lv[i], pos_h=self.ph, d=self.ds[i], h1=.1, orient=o)
            for q in (i - 1, i):
                if 0 <= q < self.n:
                    names[self.roomof[q]].add(nm)
        for r in range(self.nr):
            m.rooms.append(dict(outline=outline(self.ph, self.right(r)), outer=names[r], inner=[], part=self))
        # the walls seen from the outside
        self.shell = set()
        for r, n in enumerate(names):
            for x in n:
                if sum(x in y for y in names) == 1:
                    self.shell.add(x)
        return self


def place(rng):
    return rng.choice([0, 0, 1, 5, -7, 20, 2.5]), rng.choice([0, 1, -3, -30, 10, -1.25])


def m_stack(rng, n=None):
    m = Model('stack')
    ph, v0 = place(rng)
    Stack(rng, n or rng.choice([1, 2, 3, 3]), ph, v0, samed=rng.random() < .5).add_to(m)
    return m


def m_four(rng):
    m = m_stack(rng, 4)
    m.family = 'four'
    return m


def m_mm(rng):
    """ a tower in millimetres """
    m = Model('mm')
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 2, 3]), ph, v0, samed=rng.random() < .5)
    f = rng.choice([100, 1000])
    s.ph, s.v0 = s.ph * f, s.v0 * f
    s.hs = [x * f for x in s.hs]
    s.ds = [x * f for x in s.ds]
    s.lv = [x * f for x in s.lv]
    s.add_to(m)
    for c, k in m.parts:
        if 'h1' in k:
            k['h1'] = .1 * f
    return m


def outer_end(m, rng, room, nm, v, ph, D, o, inside=None):
    """ an end of an outer vessel """
    ins = () if inside is None else (inside,)
    if rng.random() < .6:
        m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), inn=[room], out=ins, name=nm, pos_v=v, pos_h=ph, d=D, h1=.1, orient=o)
        return [(0, v + o * hg(D)), (D / 2., v)]
    m.part('Flachboden', ind=(room,) + ins, name=nm, pos_v=v, pos_h=ph, d=D)
    return [(D / 2., v)]


def m_nest(rng, k=1):
    """ one or two vessels within another one """
    m = Model('nest%d' % k)
    ph, v0 = place(rng)
    m.rooms.append(None)
    v, off = v0, 1
    inner = []
    for j in range(k):
        s = Stack(rng, rng.choice([1, 2]) if k == 1 else 1, ph, v, pre='i%d' % j, d=2, allowin=False)
        s.add_to(m, off, outside=0)
        off += s.nr
        inner.append(s)
        v = s.lv[-1] + 1
    D = rng.choice([3, 4])
    H = v - v0
    m.part('Mantel', inn=[0], name='oma', pos_v=v0 - 1, pos_h=ph, d=(D, D), h=H + 1)
    lo = outer_end(m, rng, 0, 'obu', v0 - 1, ph, D, -1)
    hi = outer_end(m, rng, 0, 'obo', v0 + H, ph, D, 1)
    m.rooms[0] = dict(outline=outline(ph, lo + hi[::-1]), outer={'oma', 'obu', 'obo'}, inner=[s.shell for s in inner])
    return m


def m_nest2(rng):
    return m_nest(rng, 2)


def m_nest3(rng):
    """ a vessel in a vessel in a vessel """
    m = Model('nest3')
    ph, v0 = place(rng)
    prev = None
    for k, (D, dv) in enumerate(((1.5, 0), (3, 1), (5, 2.5))):
        out = k + 1 if k < 2 else None
        m.part('Mantel', inn=[k], out=[out] if k < 2 else (), name='m%d' % k, pos_v=v0 - dv, pos_h=ph, d=(D, D), h=1 + 2 * dv)
        lo = outer_end(m, rng, k, 'b%d0' % k, v0 - dv, ph, D, -1, out)
        hi = outer_end(m, rng, k, 'b%d1' % k, v0 + 1 + dv, ph, D, 1, out)
        outer = {'m%d' % k, 'b%d0' % k, 'b%d1' % k}
        m.rooms.append(dict(outline=outline(ph, lo + hi[::-1]), outer=outer, inner=[prev] if prev else []))
        prev = outer
    return m


def m_outer2(rng):
    """ an outer vessel with two rooms, another vessel in the lower one """
    m = Model('outer2')
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 2]), ph, v0, pre='i', d=2, allowin=False)
    nr = s.nr
    s.add_to(m, 0, outside=nr)
    D = 4
    b, t = s.lv[0] - 1, s.lv[-1] + 1
    m.part('Mantel', inn=[nr], name='o0', pos_v=b, pos_h=ph, d=(D, D), h=t - b)
    m.part('Mantel', inn=[nr + 1], name='o1', pos_v=t, pos_h=ph, d=(D, D), h=1.5)
    lo = outer_end(m, rng, nr, 'ob0', b, ph, D, -1)
    if rng.random() < .5:
        o = rng.choice([1, -1])
        if o == -1:  # the end is curved into the lower room
            m.part('Klopperboden', inn=[nr + 1], out=[nr], name='ob1', pos_v=t, pos_h=ph, d=D, h1=.1, orient=-1)
        else:
            m.part('Klopperboden', inn=[nr], out=[nr + 1], name='ob1', pos_v=t, pos_h=ph, d=D, h1=.1, orient=1)
        mid = [(0, t + o * hg(D)), (D / 2., t)]
    else:
        m.part('Flachboden', ind=[nr, nr + 1], name='ob1', pos_v=t, pos_h=ph, d=D)
        mid = [(D / 2., t)]
    hi = outer_end(m, rng, nr + 1, 'ob2', t + 1.5, ph, D, 1)
    m.rooms.append(dict(outline=outline(ph, lo + mid[::-1]), outer={'o0', 'ob0', 'ob1'}, inner=[s.shell]))
    m.rooms.append(dict(outline=outline(ph, mid + hi[::-1]), outer={'o1', 'ob1', 'ob2'}, inner=[]))
    return m


def m_two(rng):
    """ two vessels side by side """
    m = Model('two')
    ph, v0 = place(rng)
    a = Stack(rng, rng.choice([1, 1, 2]), ph, v0, pre='a').add_to(m)
    Stack(rng, rng.choice([1, 1, 2]), ph + rng.choice([10, -12.5]), v0 + rng.choice([0, 1, -2]), pre='b').add_to(m, a.nr)
    return m


def with_cut(right, r, cut):
    """ the right half with a further point where the vertical wall at r is cut """
    out = []
    for p, q in zip(right, right[1:] + [None]):
        out.append(p)
        if q is not None and p[0] == r and q[0] == r and p[1] < cut < q[1]:
            out.append((r, cut))
    return out


def m_jacket(rng):
    """ a jacket around the bottom, its upper end is a RaumEnde that is cut by the shell """
    m = Model('jacket')
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 2]), ph, v0, d=rng.choice([2, 3]), kinds=('klo', 'kor'), allowin=False).add_to(m)
    D = s.ds[0]
    d2 = D + rng.choice([.5, .25, 1])
    if s.n == 1 or rng.random() < .5:
        cut, top = s.lv[0] + rng.choice([.3, .5, .7]) * s.hs[0], 0
    else:
        cut, top = s.lv[1] + rng.choice([.3, .5]) * s.hs[1], 1
    J = s.nr
    m.part('Mantel', inn=[J], name='jma', pos_v=v0 - .5, pos_h=ph, d=(d2, d2), h=cut - v0 + .5)
    m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), inn=[J], name='jbo', pos_v=v0 - .5, pos_h=ph, d=d2, h1=.1, orient=-1)
    m.part('RaumEnde', name='jre', pos_v=cut, pos_h=ph, d=d2)
    m.exp['bo0'][1].add(J)
    outer = {'jma', 'jbo', 'jre', 'bo0'}
    for i in range(top + 1):
        m.exp['ma%d' % i][1].add(J)
        outer.add('ma%d' % i)
    r = D / 2.
    for k in range(s.nr):
        m.rooms[k]['outline'] = outline(ph, with_cut(s.right(k), r, cut))
    inner = [(r, s.lv[i]) for i in range(top + 1)][::-1] + s.end(0)[:1]
    m.rooms.append(dict(outline=outline(ph, [(0, v0 - .5 - hg(d2)), (d2 / 2., v0 - .5), (d2 / 2., cut), (r, cut)] + inner), outer=outer, inner=[]))
    return m


def m_topjacket(rng):
    """ a jacket around the top """
    m = Model('topjacket')
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 2]), ph, v0, d=rng.choice([2, 3]), kinds=('klo', 'kor'), allowin=False).add_to(m)
    D = s.ds[0]
    n = s.n
    d2 = D + rng.choice([.5, .25, 1])
    cut = s.lv[n - 1] + rng.choice([.3, .5, .7]) * s.hs[n - 1]
    J = s.nr
    t = s.lv[-1] + .5
    m.part('Mantel', inn=[J], name='jma', pos_v=cut, pos_h=ph, d=(d2, d2), h=t - cut)
    m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), inn=[J], name='jbo', pos_v=t, pos_h=ph, d=d2, h1=.1, orient=1)
    m.part('RaumEnde', name='jre', pos_v=cut, pos_h=ph, d=d2)
    top, wall = 'bo%d' % n, 'ma%d' % (n - 1)
    m.exp[top][1].add(J)
    m.exp[wall][1].add(J)
    r = D / 2.
    for k in range(s.nr):
        m.rooms[k]['outline'] = outline(ph, with_cut(s.right(k), r, cut))
    m.rooms.append(dict(outline=outline(ph, [s.end(n)[0], (r, s.lv[n]), (r, cut), (d2 / 2., cut), (d2 / 2., t), (0, t + hg(d2))]),
                        outer={'jma', 'jbo', 'jre', top, wall}, inner=[]))
    return m


def m_skirt(rng):
    """ a vessel on a skirt """
    m = Model('skirt')
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 2]), ph, v0, kinds=('klo', 'kor'), allowin=False).add_to(m)
    J = s.nr
    D = s.ds[0]
    h = rng.choice([.5, 1.5, 3])
    m.part('StandZarge', inn=[J], name='stz', pos_v=v0 - h, pos_h=ph, d=(D, D), h=h)
    m.exp['bo0'][1].add(J)
    m.rooms.append(dict(outline=outline(ph, [(D / 2., v0 - h), (D / 2., v0), s.end(0)[0]]), outer={'stz', 'bo0'}, inner=[]))
    return m


def m_jacketskirt(rng):
    """ a jacket around the bottom, on a skirt """
    m = Model('jacketskirt')
    ph, v0 = place(rng)
    D = rng.choice([2, 3])
    d2 = D + 1
    H = rng.choice([2, 3])
    r, R = D / 2., d2 / 2.
    m.part('Mantel', [0], [1], name='ma', pos_v=v0, pos_h=ph, d=(D, D), h=H)
    m.part('Klopperboden', [0], [1], name='b0', pos_v=v0, pos_h=ph, d=D, h1=.1, orient=-1)
    m.part('Korbbogenboden', [0], name='b1', pos_v=v0 + H, pos_h=ph, d=D, h1=.1, orient=1)
    m.part('Mantel', [1], name='jm', pos_v=v0 - .5, pos_h=ph, d=(d2, d2), h=1.5)
    m.part('Klopperboden', [1], [2], name='jb', pos_v=v0 - .5, pos_h=ph, d=d2, h1=.1, orient=-1)
    m.part('RaumEnde', name='jr', pos_v=v0 + 1, pos_h=ph, d=d2)
    m.part('StandZarge', [2], name='stz', pos_v=v0 - 2, pos_h=ph, d=(d2, d2), h=1.5)
    m.rooms.append(dict(outline=outline(ph, [(0, v0 - hg(D)), (r, v0), (r, v0 + 1), (r, v0 + H), (0, v0 + H + hg(D))]), outer={'ma', 'b0', 'b1'}, inner=[]))
    m.rooms.append(dict(outline=outline(ph, [(0, v0 - .5 - hg(d2)), (R, v0 - .5), (R, v0 + 1), (r, v0 + 1), (r, v0), (0, v0 - hg(D))]), outer={'jm', 'jb', 'jr', 'ma', 'b0'}, inner=[]))
    m.rooms.append(dict(outline=outline(ph, [(R, v0 - 2), (R, v0 - .5), (0, v0 - .5 - hg(d2))]), outer={'stz', 'jb'}, inner=[]))
    return m


def m_ring(rng, n=None):
    """ bands around a shell between ends of rooms that the shell cuts; the section of a band are two areas """
    n = n or rng.choice([1, 1, 2])
    m = Model('ring%d' % n)
    ph, v0 = place(rng)
    s = Stack(rng, rng.choice([1, 1, 2]) if n == 1 else 1, ph, v0, d=rng.choice([2, 3]), hs=None if n == 1 else [4]).add_to(m)
    D = s.ds[0]
    k = rng.randrange(s.n)
    lv, h = s.lv[k], s.hs[k]
    fr = sorted(rng.sample([.125, .25, .5, .625, .875], n + 1))
    cuts = [lv + f * h for f in fr]
    wall = 'ma%d' % k
    r = D / 2.
    dd = D + rng.choice([.5, 1, 2])
    for i, c in enumerate(cuts):
        m.part('RaumEnde', name='jre%d' % i, pos_v=c, pos_h=ph, d=dd)
    for j in range(n):
        lo, hi = cuts[j:j + 2]
        nm = 'band%d' % j
        J = s.nr + 2 * j
        m.part('Mantel', inn=[J, J + 1], name=nm, pos_v=lo, pos_h=ph, d=(dd, dd), h=hi - lo)
        m.exp[wall][1] |= {J, J + 1}
        for sx in (1, -1):
            m.rooms.append(dict(outline=[(ph + sx * x, y) for x, y in ((r, lo), (dd / 2., lo), (dd / 2., hi), (r, hi))],
                                outer={nm, wall, 'jre%d' % j, 'jre%d' % (j + 1)}, inner=[]))
    right = s.right(s.roomof[k])
    for c in reversed(cuts):
        right = with_cut(right, r, c)
    m.rooms[s.roomof[k]]['outline'] = outline(ph, right)
    m.segments = 2 * s.n + sum(1 if e[0] == 'fla' else 2 for e in s.clo.values()) + 4 * len(cuts) + 2 * n
    return m


def m_jackets(rng):
    """ a jacket around the bottom and another one around the top of the same shell """
    m = Model('jackets')
    ph, v0 = place(rng)
    D = rng.choice([2, 3])
    H = rng.choice([3, 4])
    r = D / 2.
    right = [(r, v0), (r, v0 + H)]
    m.part('Mantel', [0], [], name='ma0', pos_v=v0, pos_h=ph, d=(D, D), h=H)
    m.segments = 2 + 2 * 2
    c = (round(v0 + rng.choice([.2, .3, .4]) * H, 3), round(v0 + rng.choice([.5, .6, .75]) * H, 3))
    rooms = []
    for k, (v, o) in enumerate(((v0, -1), (v0 + H, 1))):
        dd = D + rng.choice([.5, 1])
        J = k + 1
        w = v + o * .5
        if rng.random() < .7:
            m.part('Flachboden', ind=[0, J], name='bo%d' % k, pos_v=v, pos_h=ph, d=D)
            a = []
        else:
            m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), [0], [J], name='bo%d' % k, pos_v=v, pos_h=ph, d=D, h1=.1, orient=o)
            a = [(0, v + o * hg(D))]
        if rng.random() < .9:
            m.part('Flachboden', ind=[J], name='jb%d' % k, pos_v=w, pos_h=ph, d=dd)
            b = []
        else:
            m.part('Klopperboden', [J], name='jb%d' % k, pos_v=w, pos_h=ph, d=dd, h1=.1, orient=o)
            b = [(0, w + o * hg(dd))]
        m.segments += 2 + len(a) + len(b) + 2 + 2
        m.part('Mantel', [J], name='jm%d' % k, pos_v=min(w, c[k]), pos_h=ph, d=(dd, dd), h=abs(w - c[k]))
        m.part('RaumEnde', name='jr%d' % k, pos_v=c[k], pos_h=ph, d=dd)
        m.exp['ma0'][1].add(J)
        room = b + [(dd / 2., w), (dd / 2., c[k]), (r, c[k]), (r, v)] + a
        rooms.append(dict(outline=outline(ph, room), outer={'ma0', 'bo%d' % k, 'jb%d' % k, 'jm%d' % k, 'jr%d' % k}, inner=[]))
        right = a + right if k == 0 else right + a
    for x in c[::-1]:
        right = with_cut(right, r, x)
    m.rooms = [dict(outline=outline(ph, right), outer={'ma0', 'bo0', 'bo1'}, inner=[])] + rooms
    return m


def krempe_dims(rng):
    a = rng.choice([1, 2])
    b = a + rng.choice([1, 2])
    hk, hm = rng.choice([1, 1.5, 2]), rng.choice([1.5, 2, 2.5])
    ang = math.atan2((b - a) / 2., hk)
    L = min(hk, hm) * .8
    rmax = min(L / math.tan(ang / 2), L / math.sin(ang), .45 * b) / 1.5
    r = 0 if rng.random() < .5 else round(rng.choice([.2, .5, .8]) * min(rmax, .4 * b), 3)
    return a, b, hk, hm, r, rng.choice([.2, .4, .7]), rng.choice([.15, .3, .6])


def krempe_right(a, b, hk, v0, r, ho, hu, n=3):
    """ the right side of a knuckle between a cone (below) and a cylinder, from the cone up: points, index of the start of its last segment """
    P = (b / 2., v0 + hk)
    dx, dy = (b - a) / 2., float(hk)
    phi = math.atan2(dx, dy)
    if r == 0:
        pts = [P]
        L = 0.
    else:
        L = r * math.tan(phi / 2)
        c = (P[0] - r, P[1] + L)
        pts = [(c[0] + r * math.cos(-phi + phi * k / n), c[1] + r * math.sin(-phi + phi * k / n)) for k in range(n + 1)]
    if r == 0 or hu > L * math.cos(phi):
        pts.insert(0, (P[0] - hu * dx / dy, P[1] - hu))
    if r == 0 or ho > L:
        pts.append((P[0], P[1] + ho))
    return pts


def krempe_lower(b, k):
    """ the right side of a knuckle from the cone up to where the part below joins it: the upper end of the curve """
    straight = k[-2][0] > b / 2. - 1e-9  # above the curve is a straight part
    return k[:-1] if straight else k


def m_knuckle(rng, lower=None):
    lower = lower or rng.choice(['none', 'shell', 'skirt'])
    m = Model('knuckle-' + lower)
    ph, v0 = place(rng)
    a, b, hk, hm, r, ho, hu = krempe_dims(rng)
    out = [] if lower == 'none' else [1]
    m.r0 = r == 0
    m.note = 'r=%s ho=%s hu=%s' % (r, ho, hu)
    m.part('RaumEnde', name='re', pos_v=v0, pos_h=ph, d=a)
    m.part('Mantel', [0], out, name='kegel', pos_v=v0, pos_h=ph, d=(a, b), h=hk)
    m.part('Mantel', [0], name='ma', pos_v=v0 + hk, pos_h=ph, d=(b, b), h=hm)
    m.part(rng.choice(['Korbbogenboden', 'Klopperboden']), [0], name='bo', pos_v=v0 + hk + hm, pos_h=ph, d=b, h1=.1, orient=1)
    hts = ['ma']
    if lower != 'none':
        m.part('Mantel' if lower == 'shell' else 'StandZarge', [1], name='mau', pos_v=v0 - 1, pos_h=ph, d=(b, b), h=hk + 1)
        hts.append('mau')
        if lower == 'shell':
            m.part('RaumEnde', name='reu', pos_v=v0 - 1, pos_h=ph, d=b)
    if rng.random() < .5:
        hts.reverse()
    m.part('KegelKrempe', [0], out, name='kkr', h_non_kegelside=ho, h_kegelside=hu, r=r, hts=hts, kegel='kegel')
    k = krempe_right(a, b, hk, v0, r, ho, hu)
    m.krempe = k
    m.krempe_lower = krempe_lower(b, k)
    top = v0 + hk + hm
    # a knuckle that is longer than the extra lengths ends at its tangent points
    m.rooms.append(dict(outline=outline(ph, [(a / 2., v0)] + k + [(b / 2., top), (0, top + hg(b))]), outer={'re', 'kegel', 'ma', 'bo', 'kkr'}, inner=[]))
    if lower != 'none':
        o = {'re', 'kegel', 'kkr', 'mau'} | ({'reu'} if lower == 'shell' else set())
        m.rooms.append(dict(outline=outline(ph, [(b / 2., v0 - 1)] + m.krempe_lower[::-1] + [(a / 2., v0)]), outer=o, inner=[]))
    return m


def m_grid(rng):
    """ any set of shells and ends between the nodes of a grid that leaves no loose end. The rooms are not given """
    m = Model('free')
    ph, v0 = place(rng)
    f = rng.choice([1] * 6 + [100, 1000])
    n = rng.choice([1, 2, 2, 3])
    lv = [v0]
    for _ in range(n):
        lv.append(lv[-1] + f * rng.choice([1, 1.5, 2, 3]))
    ds = sorted(f * x for x in rng.sample([2, 4, 6, 8], rng.choice([1, 2, 2, 3])))
    cand = []
    for i in range(n):
        for a in ds:
            for b in ds:
                if rng.random() < (.75 if a == b else .3):
                    cand.append((('Mantel', i, a, b), [(i, a), (i + 1, b)]))
    for i in range(n + 1):
        for a in ds:
            if rng.random() < .6:
                cand.append(((rng.choice(['Flachboden', 'Klopperboden', 'Korbbogenboden']), i, a, rng.choice([1, -1])), [(i, a)]))
    rng.shuffle(cand)
    # no crossing shells, as many parts as the search of the loops can stand
    kept, cost = [], 0
    shells = set()
    for c, nodes in cand:
        if c[0] == 'Mantel':
            if any(s[1] == c[1] and (s[2] - c[2]) * (s[3] - c[3]) < 0 for s in shells):
                continue
            shells.add(c)
        kept.append((c, nodes))
        cost += 1 if c[0] == 'Flachboden' else 2
        if cost >= 17:
            break
    # no loose ends
    while True:
        deg = {}
        for c, nodes in kept:
            for x in nodes:
                deg[x] = deg.get(x, 0) + 1
        left = [(c, nodes) for c, nodes in kept if all(deg[x] > 1 for x in nodes)]
        if len(left) == len(kept):
            break
        kept = left
    if not kept:
        raise Skip()
    for k, (c, nodes) in enumerate(kept):
        nm = '%s%d' % (c[0][:2].lower(), k)
        if c[0] == 'Mantel':
            m.part(c[0], name=nm, pos_v=lv[c[1]], pos_h=ph, d=(c[2], c[3]), h=lv[c[1] + 1] - lv[c[1]])
        elif c[0] == 'Flachboden':
            m.part('Flachboden', name=nm, pos_v=lv[c[1]], pos_h=ph, d=c[2])
        else:
            m.part(c[0], name=nm, pos_v=lv[c[1]], pos_h=ph, d=c[2], h1=.1 * f, orient=c[3])
    m.segments = sum(1 if c == 'Flachboden' else 2 for c, k in m.parts)
    return m


FAMILIES = dict(stack=m_stack, four=m_four, mm=m_mm, nest=m_nest, nest2=m_nest2, nest3=m_nest3, outer2=m_outer2, two=m_two,
                jacket=m_jacket, topjacket=m_topjacket, ring=m_ring, jackets=m_jackets, skirt=m_skirt, jacketskirt=m_jacketskirt, knuckle=m_knuckle,
                knucklefree=lambda rng: m_knuckle(rng, 'none'))
