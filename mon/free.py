# -*- coding: utf-8 -*-
"""
Vessels composed at random from shells and ends on a grid; what the answer has to be is derived from the walls alone:
the rooms are the faces of the plane graph of the walls.
"""
from common import *
import vmodel
import faces as FA
from vmodel import hg


def walls_of(cls, k):
    """ (walls, inner side is left of the wall; None: no inner side) """
    ph, v = k['pos_h'], k['pos_v']
    if cls == 'Mantel':
        a, b = k['d'][0] / 2., k['d'][1] / 2.
        return [(ipt((ph + a, v)), ipt((ph + b, v + k['h']))), (ipt((ph - b, v + k['h'])), ipt((ph - a, v)))]
    if cls == 'Flachboden':
        return [(ipt((ph - k['d'] / 2., v)), ipt((ph + k['d'] / 2., v)))]
    top = (ph, v + k['orient'] * hg(k['d']))
    l, r = (ph - k['d'] / 2., v), (ph + k['d'] / 2., v)
    if k['orient'] == 1:
        return [(ipt(r), ipt(top)), (ipt(top), ipt(l))]
    return [(ipt(l), ipt(top)), (ipt(top), ipt(r))]


def complete(m):
    """ the rooms, walls and sides of a model from its parts; False if the walls are not a plane graph of simple rooms """
    ws = {k['name']: walls_of(c, k) for c, k in m.parts}
    every = [w for v in ws.values() for w in v]
    if len({tuple(sorted(w)) for w in every}) < len(every):
        return False
    fs = FA.faces(every)
    if not fs or any(clearance(f) < 200000 for f in fs):
        return False
    ax = I(m.parts[0][1]['pos_h'])
    fe = [norm_edges(edges(f)) for f in fs]
    m.torus = any(sorted(norm_edges([((2 * ax - a[0], a[1]), (2 * ax - b[0], b[1])) for a, b in edges(f)])) != sorted(e) for f, e in zip(fs, fe))
    if m.torus and entered(m, ws):
        return False
    fset = [set(e) for e in fe]
    rooms = []
    for f, e in zip(fs, fset):
        rooms.append(dict(outline=[(x / SC, y / SC) for x, y in f], outer={n for n, w in ws.items() if any(norm_edges([x])[0] in e for x in w)}, inner=[]))
    # the groups of rooms with common walls, and the room they are in
    group = list(range(len(fs)))
    for i in range(len(fs)):
        for j in range(i):
            if fset[i] & fset[j]:
                group = [group[i] if g == group[j] else g for g in group]
    m.exp = {}
    for g in set(group):
        mem = [i for i in range(len(fs)) if group[i] == g]
        p = fs[mem[0]][0]
        around = [k for k, f in enumerate(fs) if group[k] != g and parity(edges(f), p)]
        if around:
            if m.torus:
                return False  # left and right rooms of the same parts, and rooms in rooms
            k = min(around, key=lambda k: abs(shoelace2(fs[k])))
            cnt = {n: sum(n in rooms[i]['outer'] for i in mem) for i in mem for n in rooms[i]['outer']}
            rooms[k]['inner'].append({n for n, c in cnt.items() if c == 1})
    for c, k in m.parts:
        exp = [set(), set(), set()]
        for w in ws[k['name']]:
            for left in (True, False):
                q = FA.beside(w, every, left)
                if q is None:
                    return False
                r = FA.innermost(fs, q)
                if r is not None:
                    exp[2 if c == 'Flachboden' else 0 if left else 1].add(r)
        m.exp[k['name']] = exp
    m.rooms = rooms
    return True


def entered(m, ws):
    """ a wall of another part passes between a curved end and the points that tell its sides """
    for c, k in m.parts:
        if c in ('Klopperboden', 'Korbbogenboden'):
            x, y = zip(*[p for w in ws[k['name']] for p in w])
            lo, hi = (min(x), min(y)), (max(x), max(y))
            for n, wn in ws.items():
                if n != k['name']:
                    for a, b in wn:
                        if any(lo[0] < a[0] + (b[0] - a[0]) * t / 64 < hi[0] and lo[1] < a[1] + (b[1] - a[1]) * t / 64 < hi[1] for t in range(65)):
                            return True
    return False


def m_free(rng):
    few = rng.choice([1, 2, 3, 3, 4, 4])
    nested = rng.random() < .3
    best = None
    for _ in range(200):
        try:
            m = vmodel.m_grid(rng)
        except Skip:
            continue
        if complete(m) and (best is None or len(m.rooms) > len(best.rooms)) and (not nested or any(r['inner'] for r in m.rooms)):
            best = m
            if len(m.rooms) >= few or nested:
                break
    if best is None:
        raise Skip()
    return best


def stacked(m, rng, ph, v, d, hs, pre, heads):
    """ shells of one diameter on each other, every one closed; heads: how many of the ends may be curved """
    ends = [v]
    for i, h in enumerate(hs):
        m.part('Mantel', name='%sma%d' % (pre, i), pos_v=ends[-1], pos_h=ph, d=(d, d), h=h)
        ends.append(ends[-1] + h)
    curved = set(rng.sample(range(len(ends)), min(heads, len(ends))))
    for i, y in enumerate(ends):
        nm = '%sbo%d' % (pre, i)
        if i in curved:
            m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), name=nm, pos_v=y, pos_h=ph, d=d, h1=.1, orient=-1 if i == 0 else 1 if i == len(hs) else rng.choice([1, -1]))
        else:
            m.part('Flachboden', name=nm, pos_v=y, pos_h=ph, d=d)
    return ends[-1]


def m_inside(kind):
    """ vessels of several rooms in the room of another vessel: a row of rooms, two rows, rooms in a room of a row """
    def f(rng):
        m = vmodel.Model(kind)
        ph, v0 = vmodel.place(rng)
        hs = lambda n: [rng.choice([1, 1.5, 2]) for _ in range(n)]
        v = v0
        if kind == 'chain':
            n = rng.choice([3, 3, 4])
            v = stacked(m, rng, ph, v, 2, hs(n), 'i', rng.choice([0, 1, 2]) if n == 3 else 0)
        elif kind == 'rows':
            v = stacked(m, rng, ph, v, 2, hs(2), 'i', 0) + 1
            v = stacked(m, rng, ph, v, rng.choice([2, 1.5]), hs(rng.choice([1, 2])), 'j', 0)
        else:
            n = rng.choice([1, 2])
            t = stacked(m, rng, ph, v + 1, 1.5, hs(n), 'i', 0) + 1
            h = [t - v]
            k = rng.randrange(2)  # the room with the vessel in it is the upper or the lower one
            # the other one: any height, or one so that it and the vessel inside are as large as the room around the vessel
            x = rng.choice([1.25, 2 + .5 * (t - v - 2)])
            h.insert(k, x)
            v0 = v - (0 if k else x)
            v = stacked(m, rng, ph, v0, 3, h, 'j', rng.choice([0, 1]) if n == 1 and x == 1.25 else 0)
        D = rng.choice([4, 5])
        stacked(m, rng, ph, v0 - 1, D, [v - v0 + 2], 'o', rng.choice([0, 0, 1]) if kind != 'rows' else 0)
        rng.shuffle(m.parts)
        m.segments = sum(1 if c == 'Flachboden' else 2 for c, k in m.parts)
        if not complete(m):
            raise Skip()
        return m
    return f


def m_shells(rng):
    """ a vessel in a vessel whose room is made of many shells """
    m = vmodel.Model('shells')
    ph, v = vmodel.place(rng)
    n = rng.choice([3, 5, 6, 7])
    y = v
    d = rng.choice([3, 4])
    widen = rng.random() < .3
    for i in range(n):
        h = rng.choice([1, 1.5, 2])
        e = d + (rng.choice([0, 1]) if widen else 0)
        m.part('Mantel', name='oma%d' % i, pos_v=y, pos_h=ph, d=(d, e), h=h)
        y, d = y + h, e
    m.part('Flachboden', name='obo0', pos_v=v, pos_h=ph, d=m.parts[0][1]['d'][0])
    if rng.random() < .5:
        m.part('Flachboden', name='obo1', pos_v=y, pos_h=ph, d=d)
    else:
        m.part(rng.choice(['Klopperboden', 'Korbbogenboden']), name='obo1', pos_v=y, pos_h=ph, d=d, h1=.1, orient=1)
    hi = rng.choice([.25, .5, .75])
    a = rng.choice([x for x in (.125, .375, .625, 1.125, 1.625, 2.375, 3.125, 4.125) if x + hi < y - v])
    a = rng.choice([a, .125, .125, y - v - hi - .125, y - v - hi - .125])
    stacked(m, rng, ph, v + a, rng.choice([1, 1.5]), [hi], 'i', 0)
    rng.shuffle(m.parts)
    m.segments = sum(1 if c == 'Flachboden' else 2 for c, k in m.parts)
    if not complete(m):
        raise Skip()
    return m


def m_thin(rng):
    """ rooms of different heights, some of them very low """
    m = vmodel.Model('thin')
    ph, v = vmodel.place(rng)
    d = rng.choice([1, 1, 2, 5])
    stacked(m, rng, ph, v, d, [rng.choice([.03, .04, .04, .1, .5, 1]) * d for _ in range(rng.choice([1, 2, 3]))], 't', 0)
    rng.shuffle(m.parts)
    m.segments = sum(1 if c == 'Flachboden' else 2 for c, k in m.parts)
    if not complete(m):
        raise Skip()
    return m


vmodel.FAMILIES['free'] = m_free
vmodel.FAMILIES['shells'] = m_shells
vmodel.FAMILIES['thin'] = m_thin
for k in ('chain', 'rows', 'deep'):
    vmodel.FAMILIES[k] = m_inside(k)
