# -*- coding: utf-8 -*-
""" vessels: V01 - V10 """
import math
import copy
import itertools
import time
from common import *
from oracle import Pair
import vmodel
import free
from vmodel import FAMILIES, hg, outline, krempe_right, krempe_dims, place
from geometry.SR_point import Point, distance
from geometry.SR_line import LineSegment
from geometry.SR_polygon import PolygonLine
from SR_Vessel import SR_hauptteile as H
from SR_Vessel.SR_hauptteile import (Behalter, Mantel, Klopperboden, Korbbogenboden, Flachboden, RaumEnde, StandZarge, KegelKrempe)


def build(m, rng=None, shuffle=True):
    """ the parts of a model, in any order """
    done = {}
    order = [p for p in m.parts if p[0] != 'KegelKrempe']
    if shuffle and rng is not None:
        rng.shuffle(order)
    for c, k in order:
        done[k['name']] = getattr(H, c)(**k)
    parts = [done[k['name']] for c, k in order]
    for c, k in m.parts:
        if c == 'KegelKrempe':
            k = dict(k)
            k['hts'] = tuple(done[x] for x in k['hts'])
            k['kegel'] = done[k['kegel']]
            done[k['name']] = KegelKrempe(**k)
            parts.insert(rng.randrange(len(parts) + 1) if shuffle and rng is not None else len(parts), done[k['name']])
    return parts


def describe(m, parts):
    return '%s %s: %s' % (m.family, m.note, [(c, k) for c, k in m.parts])


def size(m):
    return max(max(map(abs, p)) for r in m.rooms for p in r['outline'])


def match_rooms(rec, beh, m, ctx, rule='outline'):
    """ number of the cycle of each room of the model, by its outline """
    cyc = beh.graph.cycles
    tol = 1e-7 + 1e-9 * size(m)
    rec.expect(len(cyc) == len(m.rooms), 'room-count', len(m.rooms), lambda: '%d rooms, expected %d: %s' % (len(cyc), len(m.rooms), ctx))
    got = {k: pts_of(v) for k, v in cyc.items()}
    m2c = {}
    for r, room in enumerate(m.rooms):
        w = edges(room['outline'])
        f = [k for k, e in got.items() if k not in m2c.values() and edges_match(e, w, tol)]
        if len(f) != 1:
            rec.fail(rule, 'no room has the outline %r, the rooms are %s: %s' % (room['outline'], got, ctx))
        m2c[r] = f[0]
        rec.ok(rule, len(w))
    return m2c


def room_names(beh, m2c):
    """ names of the rooms of the model """
    byc = {r.cycle[0]: r for r in beh.raume}
    return {r: byc[c].name for r, c in m2c.items()}, {r: byc[c] for r, c in m2c.items()}


# --------------------------------------------------------------------------------------------------------------------
# V05 rooms

def family(name):
    def f(rng, rec, tier):
        m = FAMILIES[name](rng)
        limit = 9 if tier == 'quick' else 11
        if name in ('two', 'nest', 'nest2', 'outer2') and len(m.parts) > limit or m.segments > (18 if tier == 'quick' else 20):
            raise Skip()
        return m
    return f


def f_rooms(name):
    get = family(name)

    def f(rng, rec, tier):
        m = get(rng, rec, tier)
        parts = build(m, rng)
        ctx = describe(m, parts)
        rec.desc = ctx
        rec.sig(ctx)
        before = {p.name: state(p) for p in parts}
        beh = Behalter(parts)
        judge_rooms(rec, beh, m, ctx)
        judge_wall_outlines(rec, beh, m, ctx)
        judge_parts(rec, parts, before, ctx)
    return f


def state(p):
    """ what building a vessel must not change """
    return (pts_of(p), pts_of(p.graph), [type(s).__name__ for s in p.segments], p.isvalid)


def judge_parts(rec, parts, before, ctx):
    """ the parts that are not cut are as they were """
    cut = any(p.typ == 'raumende' for p in parts)
    for p in parts:
        a, b = before[p.name], state(p)
        if cut and (len(a[0]) != len(b[0]) or p.typ == 'raumende'):
            rec.skip('parts-unchanged')
            continue
        rec.expect(a == b, 'parts-unchanged', p.typ, lambda: '%s was %s, is %s: %s' % (p.name, a, b, ctx))


def in_order(poly):
    s = poly.segments
    return all(s[k - 1].j.xy == s[k].i.xy for k in range(len(s)))


def judge_wall_outlines(rec, beh, m, ctx):
    """ the outlines are closed and ordered; without cuts, the walls of a room are its outline in real shape """
    for c in beh.graph.cycles.values():
        rec.expect(in_order(c), 'ordered', len(c.segments), lambda: '%s: %s' % (pts_of(c), ctx))
    if any(c in ('RaumEnde', 'KegelKrempe') for c, k in m.parts) or m.torus:
        rec.skip('wall-outline')
        return
    sic = beh.segments_in_cycles
    for k, c in beh.cycles.items():
        rec.expect(in_order(c), 'ordered', 'walls', lambda: '%s: %s' % (pts_of(c), ctx))
        want = [e for p in sic[k] for e in pts_of(p.wall_segments)]
        rec.expect(edges_match(pts_of(c), want, 1e-9 * (1 + size(m))), 'wall-outline', len(want) // 10, lambda: 'outline %s, walls %s: %s' % (pts_of(c), want, ctx))


def judge_rooms(rec, beh, m, ctx):
    m2c = match_rooms(rec, beh, m, ctx)
    rec.eq(len(beh.raume), len(m.rooms), 'room-count', ctx)
    names, rooms = room_names(beh, m2c)
    rec.expect(len(set(names.values())) == len(names), 'room-names', len(names), lambda: 'names %s: %s' % (names, ctx))
    sic = beh.segments_in_cycles
    for r, room in enumerate(m.rooms):
        c = m2c[r]
        got = {p.name for p in sic[c]}
        rec.eq(got, room['outer'], 'parts-of-cycle', ctx, len(got))
        got = sorted(p.name for p in rooms[r].aussere_wandung)
        rec.eq(got, sorted(room['outer']), 'outer-walls', ctx, len(got))
        got = sorted(p.name for p in rooms[r].innere_wandung)
        rec.eq(got, sorted(x for g in room['inner'] for x in g), 'inner-walls', ctx, len(got))
        groups = getattr(rooms[r], '_innere_wandung', None)
        if groups is None:
            rec.skip('inner-groups')
        else:
            groups = sorted(sorted(p.hauptteil.name for p in g) for g in groups)
            rec.eq(groups, sorted(sorted(g) for g in room['inner']), 'inner-groups', ctx, len(groups))
        got = sorted(p.name for p in rooms[r].ganze_wandung)
        rec.eq(got, sorted(list(room['outer']) + [x for g in room['inner'] for x in g]), 'all-walls', ctx, len(got))
        # the area of the room in its simplified shape
        A = abs(area_f(room['outline']))
        S = size(m)
        rec.near(beh.graph.cycles[c].area, A, 1e-6 + 1e-9 * A + 1e-9 * S * S, 'area', ctx)
    ov = {frozenset(k): v for k, v in m.overlaps().items()}
    inv = {c: r for r, c in m2c.items()}
    got = {frozenset(inv[x] for x in k): set(v) for k, v in beh.overlaps_in_cycles_named.items()}
    rec.eq(got, ov, 'common-walls', ctx, len(ov))
    got = {frozenset(inv[x] for x in k): {p.name for p in v} for k, v in beh.overlaps_in_cycles.items()}
    rec.eq(got, ov, 'common-walls', ctx, len(ov))
    rec.eq({p.hauptteil.name for p in beh.all_overlapping_segments}, set().union(*ov.values()) if ov else set(), 'all-common', ctx, len(ov))
    # rooms in rooms, for the convex ones, where every way to understand "inside" means the same
    cont = beh.contained_cycles
    for r, room in enumerate(m.rooms):
        if not convex(room['outline']) or m.torus:
            rec.skip('contained')
            continue
        io = [ipt(p) for p in room['outline']]
        if shoelace2(io) < 0:
            io.reverse()
        want = set()
        for z, o in enumerate(m.rooms):
            if z != r and all(min(cross(a, b, ipt(p)) for a, b in edges(io)) > 0 for p in o['outline']):
                want.add(z)
        rec.eq({inv[x] for x in cont[m2c[r]]}, want, 'contained', ctx, len(want))
    # the names
    for p in beh.polygons:
        rec.eq(beh.name_from_repr(rep=p), p.name, 'names', ctx, 'name')


def convex(pts):
    ip = [ipt(p) for p in pts]
    t = [cross(ip[k - 2], ip[k - 1], ip[k]) for k in range(len(ip))]
    return all(x >= 0 for x in t) or all(x <= 0 for x in t)


# --------------------------------------------------------------------------------------------------------------------
# V06 sides

def judge_sides(rec, got, m, names, ctx, rule='side'):
    for p, (i, o, d) in m.exp.items():
        want = dict(innenraum={names[x] for x in i}, aussenraum={names[x] for x in o}, indifferent={names[x] for x in d})
        if p not in got:
            rec.fail(rule, 'nothing about %s: %s' % (p, ctx))
        g = {k: set(v) for k, v in got[p].items()}
        if m.r0 and p == 'kkr' and o and g == dict(want, aussenraum=set()):
            # listed: the marker points of a sharp knuckle are too far from the wall
            rec.known_finding('krempe-r0-aussenraum', ctx[:200])
            continue
        rec.expect(g == want, rule, ','.join(k for k in sorted(want) if want[k]) or 'none', lambda: '%s: got %s, expected %s: %s' % (p, g, want, ctx))
    rec.eq(set(got), set(m.exp), 'side-parts', ctx, len(got))


def f_sides(name):
    get = family(name)

    def f(rng, rec, tier):
        m = get(rng, rec, tier)
        parts = build(m, rng)
        ctx = describe(m, parts)
        rec.desc = ctx
        rec.sig(ctx)
        beh = Behalter(parts)
        m2c = match_rooms(rec, beh, m, ctx)
        names, _ = room_names(beh, m2c)
        before = {p.name: (pts_of(p), pts_of(p.graph)) for p in beh.polygons}
        got = beh.raum_intex()
        judge_sides(rec, got, m, names, ctx)
        rec.eq({p.name: (pts_of(p), pts_of(p.graph)) for p in beh.polygons} == before, True, 'unchanged', ctx)
        if rng.random() < .3:
            rec.eq(beh.raum_intex() == got, True, 'again', ctx)
    return f


# --------------------------------------------------------------------------------------------------------------------
# V07 the same vessel in another description

def relabel(beh, tol, shift):
    """ rooms identified by the sorted vertices of their outline, moved back """
    out = {}
    for r in beh.raume:
        pts = sorted({(round(p.x - shift[0], 3), round(p.y - shift[1], 3)) for s in beh.graph.cycles[r.cycle[0]].segments for p in s.ij})
        out[r.name] = tuple((x + 0., y + 0.) for x, y in pts)
    return out


def translate(m, dx, dy):
    n = copy.copy(m)
    n.parts = []
    for c, k in m.parts:
        k = dict(k)
        if 'pos_v' in k:
            k['pos_v'] = k['pos_v'] + dy
            k['pos_h'] = k['pos_h'] + dx
        n.parts.append((c, k))
    return n


def facts(beh, shift=(0, 0)):
    lab = relabel(beh, 1e-6, shift)
    side = {}
    for p, d in beh.raum_intex().items():
        side[p] = {k: frozenset(lab[x] for x in v) for k, v in d.items()}
    walls = {}
    for r in beh.raume:
        walls[lab[r.name]] = (tuple(sorted(x.name for x in r.aussere_wandung)), tuple(sorted(x.name for x in r.innere_wandung)))
    return side, walls


def f_invariance(name):
    get = family(name)

    def f(rng, rec, tier):
        m = get(rng, rec, tier)
        dx, dy = rng.choice([0, 10, -25, 3.5, 100]), rng.choice([0, -10, 40, 7.25, -100])
        ctx = describe(m, None) + ' moved by %s, %s' % (dx, dy)
        rec.desc = ctx
        rec.sig(ctx)
        s0, w0 = facts(Behalter(build(m, shuffle=False)))
        rec.expect(len(w0) == len(m.rooms), 'rooms', len(w0), ctx)
        s1, w1 = facts(Behalter(build(m, rng)))
        s2, w2 = facts(Behalter(build(translate(m, dx, dy), rng)), (dx, dy))
        if m.r0:
            for s in (s0, s1, s2):
                s.pop('kkr')
        rec.expect(w1 == w0, 'order-walls', len(w0), lambda: '%s and %s: %s' % (w0, w1, ctx))
        rec.expect(s1 == s0, 'order-sides', len(s0), lambda: '%s and %s: %s' % (s0, s1, ctx))
        rec.expect(w2 == w0, 'moved-walls', len(w0), lambda: '%s and %s: %s' % (w0, w2, ctx))
        rec.expect(s2 == s0, 'moved-sides', len(s0), lambda: '%s and %s: %s' % (s0, s2, ctx))
    return f


def f_subdivided(rng, rec, tier):
    """ a shell made of two: the rooms are the same, both halves see what the whole saw """
    m = vmodel.m_stack(rng, rng.choice([1, 2]))
    ctx = describe(m, None)
    beh = Behalter(build(m, rng))
    m2c = match_rooms(rec, beh, m, ctx)
    n = copy.deepcopy(m)
    i = rng.choice([k for k, (c, _) in enumerate(n.parts) if c == 'Mantel'])
    k = n.parts[i][1]
    t = rng.choice([.25, .5, .75])
    d = k['d'][0] + t * (k['d'][1] - k['d'][0])
    lo, hi = dict(k, d=(k['d'][0], d), h=k['h'] * t), dict(k, name=k['name'] + 'x', pos_v=k['pos_v'] + t * k['h'], d=(d, k['d'][1]), h=k['h'] * (1 - t))
    n.parts[i:i + 1] = [('Mantel', lo), ('Mantel', hi)]
    n.exp[hi['name']] = n.exp[k['name']]
    for r in n.rooms:
        if k['name'] in r['outer']:
            r['outer'].add(hi['name'])
            v = k['pos_v'] + t * k['h']
            o = []
            for a, b in edges(r['outline']):
                o.append(a)
                lo_, up_ = sorted((a[1], b[1]))
                # the points where the walls of this shell are divided
                if (lo_, up_) == (k['pos_v'], k['pos_v'] + k['h']) and abs(abs(a[0] - k['pos_h']) - (k['d'][0] if a[1] == lo_ else k['d'][1]) / 2.) < 1e-9:
                    sx = 1 if a[0] > k['pos_h'] else -1
                    o.append((k['pos_h'] + sx * d / 2., v))
            r['outline'] = o
    ctx = describe(n, None)
    rec.desc = ctx
    rec.sig(ctx)
    b2 = Behalter(build(n, rng))
    judge_rooms(rec, b2, n, ctx)
    names, _ = room_names(b2, match_rooms(rec, b2, n, ctx))
    judge_sides(rec, b2.raum_intex(), n, names, ctx, 'subdivided')


# --------------------------------------------------------------------------------------------------------------------
# V11 a finished vessel: questions in any order, renamed rooms, copies, the same parts again

def plain_facts(beh):
    side = {p: {k: frozenset(v) for k, v in d.items()} for p, d in beh.raum_intex().items()}
    return side


def f_queries(name):
    get = family(name)

    def f(rng, rec, tier):
        m = get(rng, rec, tier)
        parts = build(m, rng)
        ctx = describe(m, parts)
        rec.desc = ctx
        rec.sig(ctx)
        beh = Behalter(parts)
        m2c = match_rooms(rec, beh, m, ctx)
        names, rooms = room_names(beh, m2c)
        rec.eq(sorted(r.name for r in beh.raume), ['R%d' % (k + 1) for k in range(len(m.rooms))], 'names', ctx, len(m.rooms))

        def q_walls():
            return [(sorted(x.name for x in r.aussere_wandung), sorted(x.name for x in r.innere_wandung), sorted(x.name for x in r.ganze_wandung)) for r in beh.raume]

        def q_polygons():
            return [(sorted(pts_of(r.graph_as_polygon())), sorted(pts_of(r.as_polygon))) for r in beh.raume]

        def q_sides():
            return plain_facts(beh)

        def q_common():
            return sorted((k, sorted(v)) for k, v in beh.overlaps_in_cycles_named.items())

        def q_contained():
            return sorted((k, sorted(v)) for k, v in beh.contained_cycles.items())

        def q_outlines():
            return sorted((k, pts_of(v)) for k, v in beh.graph.cycles.items())

        def q_walllines():
            return sorted((k, pts_of(v)) for k, v in beh.cycles.items())

        def q_parts():
            return [(p.name, pts_of(p), pts_of(p.graph), markers(p)) for p in beh.polygons]

        qs = [q_walls, q_polygons, q_common, q_contained, q_outlines, q_walllines, q_parts]
        # the sides are slower
        log = [rng.choice(qs) for _ in range(10)]
        log.insert(rng.randrange(10), q_sides)
        seen = {}
        for q in log + qs:
            a = q()
            if q in seen:
                rec.expect(seen[q] == a, 'again', q.__name__, lambda: '%s was %s, is %s after %s: %s' % (q.__name__, seen[q], a, [x.__name__ for x in log], ctx))
            seen[q] = a
        # the polygons of a room are made of its walls
        by = {p.name: p for p in beh.polygons}
        for r in range(len(m.rooms)):
            w = list(m.rooms[r]['outer']) + [x for g in m.rooms[r]['inner'] for x in g]
            for got, want in ((rooms[r].graph_as_polygon(), [e for x in w for e in pts_of(by[x].graph)]), (rooms[r].as_polygon, [e for x in w for e in pts_of(by[x].wall_segments)])):
                rec.expect(edges_match(pts_of(got), want, 1e-9 * (1 + size(m))), 'polygons', len(w), lambda: 'got %s, expected %s: %s' % (pts_of(got), want, ctx))
        # other names
        side = seen[q_sides]
        pre = rng.choice(['Raum %d', 'kammer%d', 'R%d0', '%d'])
        new = {n: pre % (k + 1) for k, n in enumerate(sorted(names.values())) if rng.random() < .6}
        if len(m.rooms) > 1 and rng.random() < .5:
            a, b = rng.sample(sorted(names.values()), 2)
            new.update({a: b, b: a})
            if len(set(new.get(n, n) for n in names.values())) < len(names):
                new = {a: b, b: a}
        twice = rng.random() < .4
        for r in beh.raume:
            if r.name in new:
                if twice:
                    x = new[r.name]
                    r.set_name('~' + x)
                    r.set_name(x)
                else:
                    r.set_name(new[r.name])
        want = {p: {k: frozenset(new.get(x, x) for x in v) for k, v in d.items()} for p, d in side.items()}
        got = plain_facts(beh)
        rec.expect(got == want, 'renamed', len(new), lambda: 'got %s, expected %s with %s: %s' % (got, want, new, ctx))
        # the same parts in another vessel, unless they have been cut
        if not any(c == 'RaumEnde' for c, k in m.parts):
            b2 = Behalter(rng.sample(beh.polygons, len(parts)))
            judge_rooms(rec, b2, m, ctx)
            n2, _ = room_names(b2, match_rooms(rec, b2, m, ctx))
            got, back = plain_facts(b2), {n2[r]: new.get(names[r], names[r]) for r in n2}
            got = {p: {k: frozenset(back[x] for x in v) for k, v in d.items()} for p, d in got.items()}
            rec.expect(got == want, 'rebuilt', len(parts), lambda: 'got %s, expected %s: %s' % (got, want, ctx))
    return f


# --------------------------------------------------------------------------------------------------------------------
# V01 the shape of the parts

def rpos(rng):
    return rng.choice([0, 1, -7.5, 20, 300.25]), rng.choice([0, -3, 10.5, -250, 1000])


def right_of_head(kind, d, h1, n_kal=8, n_kre=3):
    """ right half of a dished end, from the tangent line to the axis, orientation up """
    R1, R2 = (1. * d, .1 * d) if kind == 'klo' else (.8 * d, .154 * d)
    h = math.sqrt((R1 - R2) ** 2 - (d / 2. - R2) ** 2)
    al = math.acos(h / (R1 - R2))
    c1 = (0., h1 - h)
    c2 = (d / 2. - R2, h1)
    pts = [(d / 2., 0.), (d / 2., h1)]
    de = math.pi / 2 - al
    for k in range(1, n_kre + 1):
        t = de * k / n_kre
        pts.append((c2[0] + R2 * math.cos(t), c2[1] + R2 * math.sin(t)))
    for k in range(1, n_kal // 2 + 1):
        t = de + 2 * al * k / n_kal
        pts.append((c1[0] + R1 * math.cos(t), c1[1] + R1 * math.sin(t)))
    return pts, (c1, R1), (c2, R2)


def judge_graph(rec, p, want, ctx):
    got = pts_of(p.graph)
    rec.expect(edges_match(got, want, 1e-6 + 1e-9 * max(max(map(abs, a)) for e in want for a in e)), 'graph', type(p).__name__, lambda: 'graph %s, expected %s: %s' % (got, want, ctx))


def f_head(rng, rec, tier):
    kind = rng.choice(['klo', 'kor'])
    d = rng.choice([1, 2, 3.2, 12, 100, 1000, 2500, 12000, 50000, .3])
    h1 = rng.choice([0.01, .1, .05, .2]) * rng.choice([d, 1])
    o = rng.choice([1, -1])
    ph, pv = rpos(rng)
    B = (Klopperboden if kind == 'klo' else Korbbogenboden)(name='b', pos_v=pv, pos_h=ph, d=d, h1=h1, orient=o)
    ctx = (kind, d, h1, o, ph, pv)
    rec.desc = ctx
    rec.sig(ctx)
    right, (c1, R1), (c2, R2) = right_of_head(kind, d, h1)
    half = right + [(-x, y) for x, y in reversed(right[:-1])]
    want = [(ph + x, pv + o * y) for x, y in half]
    tol = 1e-7 + 1e-9 * (abs(ph) + abs(pv) + d) + 5e-8
    W, N = B.wall_segments, B.nonwall_segments
    got = pts_of(W)
    rec.expect(edges_match(got, list(zip(want, want[1:])), tol), 'shape', kind, lambda: 'walls %s, expected %s: %s' % (got, want, ctx))
    rec.expect(edges_match(pts_of(N), [(want[-1], want[0])], tol), 'open-side', kind, lambda: '%s: %s' % (pts_of(N), ctx))
    rec.eq(B.isvalid, True, 'valid', ctx, kind)
    top = max(o * (p.y - pv) for s in W for p in s.ij)
    rec.near(top, c1[1] + R1, 2 * tol, 'height', ctx)
    rec.near(B.characteristic_size, d / 2., 1e-9, 'size', ctx)
    rec.near(B.h_graph, hg(d), 1e-9, 'graph-height', ctx)
    judge_graph(rec, B, [((ph - d / 2., pv), (ph, pv + o * hg(d))), ((ph, pv + o * hg(d)), (ph + d / 2., pv))], ctx)
    rec.eq((B.typ, B.name), ('boden', 'b'), 'type', ctx, 'boden')


def f_shell(rng, rec, tier):
    ph, pv = rpos(rng)
    f = rng.choice([1, 1, 100, 1000, 10000, .1])
    d0, d1 = rng.choice([1, 2, 3.2]) * f, rng.choice([1, 2, 2.5, 4]) * f
    h = rng.choice([.5, 1, 3, 7.5]) * f
    cls = rng.choice([Mantel, Mantel, StandZarge])
    M = cls(name='m', pos_v=pv, pos_h=ph, d=(d0, d1), h=h)
    ctx = (cls.__name__, d0, d1, h, ph, pv)
    rec.desc = ctx
    rec.sig(ctx)
    a, b, c, e = (ph + d0 / 2., pv), (ph + d1 / 2., pv + h), (ph - d1 / 2., pv + h), (ph - d0 / 2., pv)
    tol = 1e-7
    walls, open_ = [(a, b), (c, e)], [(b, c), (e, a)]
    if cls is StandZarge:
        walls.append(open_.pop())
    rec.expect(edges_match(pts_of(M.wall_segments), walls, tol), 'shape', cls.__name__, lambda: '%s: %s' % (pts_of(M.wall_segments), ctx))
    rec.expect(edges_match(pts_of(M.nonwall_segments), open_, tol), 'open-side', cls.__name__, lambda: '%s: %s' % (pts_of(M.nonwall_segments), ctx))
    rec.expect(M.iscontinuous and M.isclosed, 'valid', 'closed', ctx)
    rec.eq(M.isvalid, True, 'valid', ctx, cls.__name__)
    judge_graph(rec, M, walls, ctx)
    rec.near(M.characteristic_size, min(d0, d1) / 2., 1e-9, 'size', ctx)
    rec.near(M.area, (d0 + d1) / 2. * h, 1e-6 + 1e-9 * d0 * h, 'shell-area', ctx)


def f_flat(rng, rec, tier):
    ph, pv = rpos(rng)
    d = rng.choice([1, 2, 3.2, 1000, 25000, .3])
    cls = rng.choice([Flachboden, RaumEnde])
    B = cls(name='f', pos_v=pv, pos_h=ph, d=d)
    ctx = (cls.__name__, d, ph, pv)
    rec.desc = ctx
    rec.sig(ctx)
    w = [((ph - d / 2., pv), (ph + d / 2., pv))]
    rec.expect(edges_match(pts_of(B.wall_segments), w, 1e-7), 'shape', cls.__name__, lambda: '%s: %s' % (pts_of(B.wall_segments), ctx))
    rec.eq(len(B.nonwall_segments), 0, 'open-side', ctx)
    judge_graph(rec, B, w, ctx)
    rec.eq(B.isvalid, True, 'valid', ctx, cls.__name__)
    if cls is Flachboden:
        rec.near(B.characteristic_size, d / 2., 1e-9, 'size', ctx)


# --------------------------------------------------------------------------------------------------------------------
# V02 the marker points

def markers(p):
    g = p.graph
    out = []
    for kind in ('internal', 'external', 'indifferent'):
        for q in getattr(g, kind):
            out.append((kind, q.xy, (q.segment.i.xy, q.segment.j.xy)))
    return out


def inside(ip, p):
    return parity(edges(ip), p) and not any(on_seg(a, b, p) for a, b in edges(ip))


def f_markers(rng, rec, tier):
    ph, pv = rpos(rng)
    f = rng.choice([1, 1, 1, 100, 1000])
    kind = rng.choice(['klo', 'kor', 'fla', 'mantel', 'mantel', 're'])
    d = rng.choice([1, 2, 3.2, 4]) * f
    if kind in ('klo', 'kor'):
        o = rng.choice([1, -1])
        P = (Klopperboden if kind == 'klo' else Korbbogenboden)(name='b', pos_v=pv, pos_h=ph, d=d, h1=.1 * f, orient=o)
        ctx = (kind, d, o, ph, pv)
        poly = [ipt(p) for p in ((ph - d / 2., pv), (ph, pv + o * hg(d)), (ph + d / 2., pv))]
        per = dict(internal=2, external=1)
    elif kind == 'mantel':
        d1 = rng.choice([1, 2, 2.5, 4]) * f
        h = rng.choice([.5, 1, 3]) * f
        P = Mantel(name='m', pos_v=pv, pos_h=ph, d=(d, d1), h=h)
        ctx = (kind, d, d1, h, ph, pv)
        if rng.random() < .3:
            v = pv + h * rng.choice([.25, .5, .8])
            P.split(v=v)
            ctx += ('split', v)
        poly = [ipt(p) for p in ((ph - d / 2., pv), (ph + d / 2., pv), (ph + d1 / 2., pv + h), (ph - d1 / 2., pv + h))]
        per = dict(internal=2, external=2)
    elif kind == 'fla':
        P = Flachboden(name='f', pos_v=pv, pos_h=ph, d=d)
        ctx = (kind, d, ph, pv)
        per = dict(indifferent=2)
    else:
        P = RaumEnde(name='f', pos_v=pv, pos_h=ph, d=d)
        ctx = (kind, d, ph, pv)
        per = {}
    rec.desc = ctx
    rec.sig(ctx)
    ms = markers(P)
    segs = pts_of(P.graph)
    for k in ('internal', 'external', 'indifferent'):
        for s in segs:
            n = sum(1 for a, _, t in ms if a == k and t == s)
            rec.expect((n > 0) == (per.get(k, 0) > 0), 'marker-kinds', (kind, k), lambda: '%d %s markers at %s, %s: %s' % (n, k, s, ms, ctx))
    rec.expect(all(t in segs for _, _, t in ms), 'marker-owner', None, lambda: '%s: %s' % (ms, ctx))
    for k, q, s in ms:
        i = ipt(q)
        if kind in ('klo', 'kor', 'mantel'):
            dd = min(seg_dist(a, b, i) for a, b in edges(poly))
            rec.expect(dd > 100, 'marker-off-wall', kind, lambda: '%s at %r is on the wall: %s' % (k, q, ctx))
            rec.expect(inside(poly, i) == (k == 'internal'), 'marker-side', (kind, k), lambda: '%s marker at %r is on the wrong side: %s' % (k, q, ctx))
            # it is a marker of this wall: nothing of the part lies between
            near = seg_dist(ipt(s[0]), ipt(s[1]), i)
            rec.expect(near <= .5 * dist(ipt(s[0]), ipt(s[1])), 'marker-near', kind, lambda: '%s marker at %r is far from its wall %r: %s' % (k, q, s, ctx))
        if kind == 'mantel':
            same_side = (q[0] - ph) * (s[0][0] - ph) > 0
            rec.expect(same_side, 'marker-near', 'axis', lambda: '%s marker at %r is across the axis from its wall %r: %s' % (k, q, s, ctx))
    if kind == 'fla':
        ys = sorted(q[1] - pv for _, q, _ in ms)
        rec.expect(len(ys) == 2 and ys[0] < -1e-6 < 1e-6 < ys[1] and all(abs(q[0] - ph) < d / 2. for _, q, _ in ms), 'marker-side', kind, lambda: 'not above and below: %s: %s' % (ms, ctx))


# --------------------------------------------------------------------------------------------------------------------
# V03 splitting

def f_split(rng, rec, tier):
    ph, pv = rpos(rng)
    f = rng.choice([1, 1, 100])
    d, d1 = rng.choice([1, 2, 4]) * f, rng.choice([1, 2, 4]) * f
    h = rng.choice([1, 2, 5]) * f
    kind = rng.choice(['mantel', 'mantel', 'mantel', 'boden', 'fla'])
    if kind == 'boden':
        P = Klopperboden(name='b', pos_v=pv, pos_h=ph, d=d, h1=.1 * f, orient=rng.choice([1, -1]))
    elif kind == 'fla':
        P = Flachboden(name='f', pos_v=pv, pos_h=ph, d=d)
    else:
        P = Mantel(name='m', pos_v=pv, pos_h=ph, d=(d, d1), h=h)
    before = pts_of(P)
    walls0 = pts_of(P.wall_segments)
    open0 = pts_of(P.nonwall_segments)
    cuts = []
    log = [kind, d, d1, h, ph, pv]
    rec.desc = log
    for _ in range(rng.randint(1, 3)):
        t = rng.choice([.125, .25, .375, .5, .75, .9, 0, 1, -.5, 1.5])
        v = pv + t * h
        by = rng.choice(['v', 'ht'])
        log.append((by, v))
        do = kind == 'mantel' and 0 < t < 1 and v not in cuts
        if by == 'v':
            r = P.split(v=v)
            rec.eq(bool(r), do, 'answer', log)
        else:
            W = max(d, d1) + rng.choice([.5, 1, 3]) * f
            R = RaumEnde(name='re', pos_v=v, pos_h=ph, d=W)
            keep = rng.random() < .5
            r = P.split(ht=R, keep=keep)
            rec.eq(bool(r), do, 'answer', log)
            w = [((ph - W / 2., v), (ph + W / 2., v))]
            x = d / 2. + t * (d1 - d) / 2.
            if do and not keep:
                ww = [((ph - W / 2., v), (ph - x, v)), ((ph + x, v), (ph + W / 2., v))]
                nn = [((ph - x, v), (ph + x, v))]
            else:
                ww, nn = w, []
            rec.expect(edges_match(pts_of(R.wall_segments), ww, 1e-6) and edges_match(pts_of(R.nonwall_segments), nn, 1e-6), 'cutter', (do, keep),
                       lambda: 'the cutter is %s, %s: %s' % (pts_of(R.wall_segments), pts_of(R.nonwall_segments), log))
            if do and not keep:
                rec.expect(edges_match(pts_of(R.graph), ww, 1e-6), 'cutter', 'graph', lambda: 'graph of the cutter %s: %s' % (pts_of(R.graph), log))
        if do:
            cuts.append(v)
    rec.sig(log)
    if not cuts:
        rec.expect(edges_match(pts_of(P), before, 1e-9, directed=True), 'untouched', kind, lambda: '%s became %s: %s' % (before, pts_of(P), log))
        return
    ys = sorted([pv, pv + h] + cuts)
    X = lambda y: d / 2. + (d1 - d) / 2. * (y - pv) / h
    want = []
    for a, b in zip(ys, ys[1:]):
        for sx in (1, -1):
            want.append(((ph + sx * X(a), a), (ph + sx * X(b), b)))
    tol = 1e-6
    for sx in (1, -1) if len(cuts) == 1 else ():
        # both pieces run on as the wall did
        for x, y in walls0:
            if (x[0] - ph) * sx > 0:
                c = (ph + sx * X(cuts[0]), cuts[0])
                got = [(i.xy, j.xy) for i, j in (s.ij for s in P.wall_segments) if (i.x - ph) * sx > 0]
                rec.expect(edges_match(got, [(x, c), (c, y)], tol, directed=True), 'pieces', sx, lambda: 'pieces %s of the wall %s: %s' % (got, (x, y), log))
    rec.expect(edges_match(pts_of(P.wall_segments), want, tol), 'walls', len(cuts), lambda: 'walls %s, expected %s: %s' % (pts_of(P.wall_segments), want, log))
    rec.expect(edges_match(pts_of(P.nonwall_segments), open0, tol), 'open', len(cuts), lambda: 'open sides %s, expected %s: %s' % (pts_of(P.nonwall_segments), open0, log))
    rec.expect(edges_match(pts_of(P.graph), want, tol), 'graph', len(cuts), lambda: 'graph %s, expected %s: %s' % (pts_of(P.graph), want, log))
    ms = markers(P)
    segs = pts_of(P.graph)
    rec.expect({t for _, _, t in ms} == set(segs), 'markers-renewed', len(cuts), lambda: 'markers %s for the segments %s: %s' % (ms, segs, log))
    rec.near(sum(s.norm for s in P.wall_segments), sum(dist(*e) for e in walls0), 1e-6, 'length', log)


# --------------------------------------------------------------------------------------------------------------------
# V09 knuckles

def f_knuckle(rng, rec, tier):
    lower = rng.choice(['none', 'none', 'shell', 'skirt'])
    m = vmodel.m_knuckle(rng, lower)
    dl = None
    for c, kx in m.parts:
        if kx['name'] == 'mau':  # the part below may be a cone as well
            dl = kx['d'][1] + rng.choice([0, 0, .5, 2, -.2])
            kx['d'] = (dl, kx['d'][1])
    ctx = describe(m, None)
    rec.desc = ctx
    rec.sig(ctx)
    P = {p.name: p for p in build(m, rng)}
    kw = {k['name']: k for c, k in m.parts}
    k = m.krempe
    ph = kw['ma']['pos_h']
    v0, a, b = kw['kegel']['pos_v'], kw['kegel']['d'][0], kw['kegel']['d'][1]
    hk, hm = kw['kegel']['h'], kw['ma']['h']
    both = lambda es: [((ph + sx * p[0], p[1]), (ph + sx * q[0], q[1])) for p, q in es for sx in (1, -1)]
    tol = 2e-6
    T = P['kkr']

    def same(part, want, what):
        got = pts_of(part.wall_segments)
        rec.expect(edges_match(got, want, tol), what, (lower, bool(m.r0)), lambda: '%s: walls %s, expected %s: %s' % (part.name, got, want, ctx))
        got = pts_of(part.graph)
        rec.expect(edges_match(got, want, tol), what + '-graph', (lower, bool(m.r0)), lambda: '%s: graph %s, expected %s: %s' % (part.name, got, want, ctx))
    same(T, both(list(zip(k, k[1:]))), 'knuckle')
    rec.expect(edges_match(pts_of(T.nonwall_segments), [((ph + p[0], p[1]), (ph - p[0], p[1])) for p in (k[0], k[-1])], tol), 'knuckle-open', None, lambda: '%s: %s' % (pts_of(T.nonwall_segments), ctx))
    same(P['kegel'], both([((a / 2., v0), k[0])]), 'cone')
    same(P['ma'], both([(k[-1], (b / 2., v0 + hk + hm))]), 'cylinder')
    if lower != 'none':
        w = both([((dl / 2., v0 - 1), m.krempe_lower[-1])])
        if lower == 'skirt':
            w.append(((ph + dl / 2., v0 - 1), (ph - dl / 2., v0 - 1)))
        same(P['mau'], w, 'lower')
    rec.eq(T.isclosed, True, 'closed', ctx)
    r = kw['kkr']['r']
    if r:
        # tangent to both neighbours
        phi = math.atan2((b - a) / 2., hk)
        L = r * math.tan(phi / 2)
        c = (b / 2. - r, v0 + hk + L)
        on = [p for s in T.wall_segments for p in s.ij if p.x > ph and abs(math.hypot(p.x - ph - c[0], p.y - c[1]) - r) < 1e-6]
        rec.expect(len({q.xy for q in on}) >= 4, 'tangent', None, lambda: 'points on the arc %s: %s' % (on, ctx))
    # only cones that get wider upwards
    bad = Mantel(name='k', pos_v=0, pos_h=0, d=(3, 2), h=1)
    up = Mantel(name='u', pos_v=1, pos_h=0, d=(2, 2), h=1)
    good = Mantel(name='k', pos_v=0, pos_h=0, d=(1, 2), h=1)
    rec.expect(rejected(KegelKrempe, name='x', h_non_kegelside=.2, h_kegelside=.2, r=0, hts=(up,), kegel=bad), 'refused', 'divergent', ctx)
    rec.expect(rejected(KegelKrempe, name='x', h_non_kegelside=0, h_kegelside=.2, r=0, hts=(up,), kegel=good), 'refused', 'length', ctx)
    rec.expect(rejected(KegelKrempe, name='x', h_non_kegelside=.2, h_kegelside=-.2, r=0, hts=(up,), kegel=good), 'refused', 'length', ctx)
    # the curve has to end on the cone and on the cylinder
    hs = [rng.choice([.5, 1, 2]) for _ in range(2)]
    phi = math.atan2(.5, hs[0])
    fits = (math.hypot(.5, hs[0]), hs[1])
    for short in (0, 1):
        if fits[1 - short] > 1.3 * fits[short]:
            r = rng.uniform(1.1 * fits[short], .9 * fits[1 - short]) / math.tan(phi / 2)
            good = Mantel(name='k', pos_v=0, pos_h=ph, d=(1, 2), h=hs[0])
            up = Mantel(name='u', pos_v=hs[0], pos_h=ph, d=(2, 2), h=hs[1])
            was = pts_of(good), pts_of(up)
            rec.expect(rejected(KegelKrempe, name='x', h_non_kegelside=.01, h_kegelside=.01, r=r, hts=(up,), kegel=good), 'refused', 'radius-%d' % short, lambda: 'r=%s: cone %s cylinder %s' % (r, good, up))
            rec.expect(was == (pts_of(good), pts_of(up)), 'refused', 'unchanged', ctx)


# --------------------------------------------------------------------------------------------------------------------
# V10 description by dicts

def f_dict(rng, rec, tier):
    ph, pv = rpos(rng)
    d = rng.choice([1, 2, 3.2])
    cls = rng.choice([Mantel, Klopperboden, Korbbogenboden, Flachboden, RaumEnde, StandZarge])
    kw = dict(name='n%d' % rng.randint(0, 99), pos_v=pv, pos_h=ph)
    if cls in (Mantel, StandZarge):
        kw.update(d=(d, rng.choice([1, 2, 4])), h=rng.choice([1, 2.5]))
    else:
        kw.update(d=d)
    if cls in (Klopperboden, Korbbogenboden):
        kw.update(h1=rng.choice([.1, .2]), orient=rng.choice([1, -1]))
    keep = dict(kw)
    ctx = (cls.__name__, kw)
    rec.desc = ctx
    rec.sig(str(ctx))
    P = cls.from_dict(kw)
    Q = cls(**kw)
    rec.eq(kw == keep, True, 'operands', ctx)
    rec.expect(type(P) is cls, 'class', cls.__name__, lambda: 'got a %s: %s' % (type(P).__name__, ctx))
    rec.expect(all(getattr(P, k) == v for k, v in kw.items()), 'attributes', cls.__name__, lambda: '%s: %s' % (vars(P), ctx))
    rec.expect(pts_of(P) == pts_of(Q) and [type(s) for s in P.segments] == [type(s) for s in Q.segments], 'same', cls.__name__, lambda: '%s, %s: %s' % (P, Q, ctx))
    rec.expect(pts_of(P.graph) == pts_of(Q.graph) and markers(P) == markers(Q), 'same', 'graph', ctx)
    k = rng.choice(sorted(kw))
    bad = {x: y for x, y in kw.items() if x != k}
    rec.expect(rejected(cls.from_dict, bad), 'missing', k, lambda: 'accepted without %s: %s' % (k, ctx))
    bad = dict(kw, unknown_key=1)
    rec.expect(rejected(cls.from_dict, bad), 'unknown', cls.__name__, lambda: 'accepted with an unknown key: %s' % (ctx,))


def f_dict_knuckle(rng, rec, tier):
    m = vmodel.m_knuckle(rng, 'none')
    kw = {k['name']: k for c, k in m.parts}
    mk = lambda n: Mantel(**kw[n])
    k = kw['kkr']
    ctx = (m.note, kw['kegel'], kw['ma'])
    rec.desc = ctx
    rec.sig(str(ctx))
    P = KegelKrempe.from_dict(dict(name='kkr', h_oben=k['h_non_kegelside'], h_unten=k['h_kegelside'], r=k['r'], hts=(mk('ma'),), kegel=mk('kegel')))
    Q = KegelKrempe(name='kkr', h_non_kegelside=k['h_non_kegelside'], h_kegelside=k['h_kegelside'], r=k['r'], hts=(mk('ma'),), kegel=mk('kegel'))
    rec.expect(pts_of(P) == pts_of(Q) and pts_of(P.graph) == pts_of(Q.graph), 'same', 'KegelKrempe', lambda: '%s, %s: %s' % (P, Q, ctx))
    rec.expect(rejected(KegelKrempe.from_dict, dict(name='kkr', h_oben=.2, h_unten=.2, hts=(mk('ma'),), kegel=mk('kegel'))), 'missing', 'r', ctx)


def fams(f, **w):
    return [(k, v, f(k)) for k, v in w.items()]


# --------------------------------------------------------------------------------------------------------------------
# V12 descriptions of the sides under other room names

SIDES = ('innenraum', 'aussenraum', 'indifferent')


def renamings(d, base):
    """ how many of the one-to-one renamings of the rooms of d make it the base """
    rooms, names = [sorted({r for p in x.values() for s in p.values() for r in s}) for x in (d, base)]
    if len(rooms) != len(names):
        return 0
    n = 0
    for p in itertools.permutations(names):
        m = dict(zip(rooms, p))
        n += {k: {s: {m[r] for r in v} for s, v in x.items()} for k, x in d.items()} == base
    return n


def f_renamed(rng, rec, tier):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    rooms = ['R%d' % (k + 1) for k in range(n)]
    if rng.random() < .2:
        rooms = rng.sample(['a', 'b', 'c', 'd', 'e', 'Mantelraum', 'R10', 'R1'], n)
    base = {'t%d' % k: {s: {r for r in rooms if rng.random() < rng.choice([.1, .3, .6])} for s in SIDES} for k in range(rng.choice([1, 2, 3, 5]))}
    other = list(rooms)
    if rng.random() < .3:
        other = rng.sample(['x', 'y', 'z', 'R1', 'R2', 'b', 'R11'], n)
    rng.shuffle(other)
    to = dict(zip(rooms, other))
    d = {k: {s: {to[r] for r in v} for s, v in x.items()} for k, x in base.items()}
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k, (s, t) = rng.choice(sorted(d)), rng.sample(SIDES, 2)
        what = rng.choice(['move', 'drop', 'add', 'swap', 'part', 'new', 'lost'])
        if what in ('move', 'drop') and d[k][s]:
            r = rng.choice(sorted(d[k][s]))
            d[k][s].discard(r)
            if what == 'move':
                d[k][t].add(r)
        elif what == 'add' and other:
            d[k][s].add(rng.choice(other))
        elif what == 'swap':
            d[k][s], d[k][t] = d[k][t], d[k][s]
        elif what == 'part':
            if rng.random() < .5 and len(d) > 1:
                del d[k]
            else:
                d['tx'] = {x: set() for x in SIDES}
        elif what == 'new':
            d[k][s].add('Rx')
        elif what == 'lost' and other:
            r = rng.choice(other)
            d = {k: {s: v - {r} for s, v in x.items()} for k, x in d.items()}
    if rng.random() < .3:
        d = {k: {s: d[k][s] for s in rng.sample(SIDES, 3)} for k in rng.sample(sorted(d), len(d))}
    ctx = 'compared %s, reference %s' % (d, base)
    rec.desc = ctx
    rec.sig(ctx)
    keep = eval(repr((d, base)))
    want = renamings(d, base)
    sleep = time.sleep
    time.sleep = lambda *a: None
    try:
        got = H.raum_dict_checker(dict_to_comapare=d, basedict=base)
    except Exception:
        got = 'refused'
    finally:
        time.sleep = sleep
    if want == 1:
        rec.eq(got, True, 'accepted', ctx, n)
    else:
        rec.eq(got, 'refused', 'not-accepted', ctx, min(want, 2))
    rec.eq((d, base), keep, 'operands', ctx)


def f_renamed_vessel(rng, rec, tier):
    """ a vessel, and the same one with its parts in another order """
    m = FAMILIES['stack'](rng)
    a, b = Behalter(build(m, rng)).raum_intex(), Behalter(build(m, rng)).raum_intex()
    ctx = describe(m, None)
    rec.desc = ctx
    rec.sig(ctx)
    want = renamings(a, b)
    rec.eq(rejected(H.raum_dict_checker, dict_to_comapare=a, basedict=b), want != 1, 'accepted' if want == 1 else 'not-accepted', ctx, 'vessel')


PROPS = {
    'V12': dict(families=[('renamed', 60, f_renamed), ('vessel', 1, f_renamed_vessel)]),
    'V01': dict(families=[('head', 2, f_head), ('shell', 2, f_shell), ('flat', 1, f_flat)]),
    'V02': dict(families=[('markers', 1, f_markers)]),
    'V03': dict(families=[('split', 1, f_split)]),
    'V05': dict(families=fams(f_rooms, free=5, stack=6, four=1, mm=3, nest=2, nest2=.3, nest3=1, chain=1.5, rows=.5, deep=1, shells=4, thin=.7, outer2=1, two=1, jacket=4, topjacket=4, ring=3, jackets=2, skirt=3, jacketskirt=1, knuckle=.3, knucklefree=2), cpu_limit=240.),
    'V06': dict(families=fams(f_sides, free=5, stack=6, four=1, mm=3, nest=2, nest2=.3, nest3=1, chain=1.5, rows=.5, deep=1, shells=4, thin=.7, outer2=1, two=1, jacket=4, topjacket=4, ring=3, jackets=2, skirt=3, jacketskirt=1, knuckle=.6, knucklefree=2), cpu_limit=240.),
    'V07': dict(families=fams(f_invariance, free=2, stack=4, mm=1, nest=1, nest3=.5, chain=.5, rows=.3, deep=.3, shells=.3, thin=.3, jacket=2, topjacket=2, ring=1, jackets=.5, skirt=2, jacketskirt=.5, knucklefree=1) + [('subdivided', 3, f_subdivided)], cpu_limit=240.),
    'V09': dict(families=[('knuckle', 1, f_knuckle)]),
    'V11': dict(families=fams(f_queries, free=2, stack=4, mm=1, nest=1, nest3=.5, chain=.5, rows=.3, deep=.3, shells=.3, thin=.3, outer2=.5, two=.5, jacket=2, topjacket=1, ring=1, jackets=.5, skirt=2, jacketskirt=.5, knucklefree=1), cpu_limit=240.),
    'V10': dict(families=[('dict', 4, f_dict), ('knuckle', 1, f_dict_knuckle)]),
}
