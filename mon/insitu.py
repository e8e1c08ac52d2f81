# -*- coding: utf-8 -*-
""" V04: the calls the package makes itself, while vessels are built, cut and described """
import copy
import importlib
import io
import os
import sys
import unittest
from common import *
import vmodel
import free
import faces as FA
from probe import Probe
from vessel import build, describe, FAMILIES
from SR_Vessel import SR_hauptteile as H
from SR_Vessel.SR_hauptteile import Behalter


# --------------------------------------------------------------------------------------------------------------------
# rooms and sides without a model

def iseg(s):
    return ipt(s.i.xy), ipt(s.j.xy)


def judge_faces(rec, beh, ctx):
    """ the rooms are the faces of the plane graph of the walls """
    walls = [iseg(s) for p in beh.polygons for s in p.graph.segments]
    fs = FA.faces(walls)
    if fs is None or any(clearance(f) < 20000 for f in fs):
        rec.skip('faces')
        return None
    got = [[iseg(s) for s in c.segments] for c in beh.graph.cycles.values()]
    want = sorted(norm_edges(edges(f)) for f in fs)
    rec.eq(sorted(norm_edges(g) for g in got), want, 'faces', ctx, len(fs))
    return fs


def inner_left(part, wall):
    """ the inner side of the wall is to the left of it (None: there is no inner side) """
    a, b = wall
    ph, pv = getattr(part, 'pos_h', None), getattr(part, 'pos_v', None)
    t = part.typ
    if t in ('klopperboden', 'korbbogenboden', 'torispherisches boden') or hasattr(part, 'orient'):
        m = (I(ph), I(pv))
        s = cross(a, b, m)
        return s > 0 if s else None
    if a[1] == b[1]:
        if isinstance(part, H.StandZarge):
            return b[0] > a[0]  # above
        return None
    x = sgn(cross(a, b, (I(ph), (a[1] + b[1]) // 2)))
    return x > 0 if x else None


def judge_wall_sides(rec, beh, got, fs, ctx):
    """ the rooms beside the middle of each wall """
    walls = [iseg(s) for p in beh.polygons for s in p.graph.segments]
    c2n = {r.cycle[0]: r.name for r in beh.raume}
    name = {}
    for k, f in enumerate(fs):
        e = norm_edges(edges(f))
        for c, cyc in beh.graph.cycles.items():
            if norm_edges(iseg(s) for s in cyc.segments) == e:
                name[k] = c2n[c]
    for p in beh.polygons:
        if p.typ == 'raumende':
            want = dict(innenraum=set(), aussenraum=set(), indifferent=set())
        else:
            want = dict(innenraum=set(), aussenraum=set(), indifferent=set())
            both = isinstance(p, H.Flachboden)
            for s in p.graph.segments:
                w = iseg(s)
                il = True if both else inner_left(p, w)
                ps = [FA.beside(w, walls, left) for left in (True, False)]
                if il is None or None in ps:
                    want = None
                    break
                rooms = [FA.innermost(fs, q) for q in ps]
                for left, r in zip((True, False), rooms):
                    if r is not None:
                        want['indifferent' if both else 'innenraum' if left == il else 'aussenraum'].add(name[r])
            if want is None:
                rec.skip('wall-sides')
                continue
        g = {k: set(v) for k, v in got[p.name].items()}
        if isinstance(p, H.KegelKrempe) and not p.r and want['aussenraum'] and g == dict(want, aussenraum=set()):
            rec.skip('wall-sides')  # the listed finding of V06
            continue
        rec.expect(g == want, 'wall-sides', ','.join(k for k in sorted(want) if want[k]) or 'none', lambda: '%s: got %s, expected %s: %s' % (p.name, g, want, ctx))


def f_models(name):
    def f(rng, rec, tier):
        m = FAMILIES[name](rng)
        if name in ('two', 'nest', 'nest2', 'outer2') and len(m.parts) > (9 if tier == 'quick' else 11) or m.segments > (18 if tier == 'quick' else 20):
            raise Skip()
        ctx = describe(m, None)
        rec.desc = ctx
        rec.sig(ctx)
        with Probe(rec, rng, ctx[:400]):
            beh = Behalter(build(m, rng))
            fs = judge_faces(rec, beh, ctx)
            got = beh.raum_intex()
            beh.contained_cycles
            for c in beh.graph.cycles.values():
                c.iscw
            if fs is not None:
                judge_wall_sides(rec, beh, got, fs, ctx)
    return f


# --------------------------------------------------------------------------------------------------------------------
# the project's own tests as a workload

_tests = {}


def suite():
    if not _tests:
        for mod in ('test_SRLine', 'test_SRpoint', 'test_SRpolygon', 'test_SRhauptteile'):
            try:
                m = importlib.import_module('tests.' + mod)
            except Exception:
                continue
            for t in unittest.defaultTestLoader.loadTestsFromModule(m):
                for x in t:
                    _tests[x.id()] = x
    return _tests


def f_suite(vessels):
    def f(rng, rec, tier):
        ts = sorted(k for k in suite() if ('hauptteile' in k) == vessels)
        if not ts:
            raise Skip()
        k = rng.choice(ts)
        rec.desc = k
        rec.sig(k)
        t = suite()[k]
        seen = []
        init, intex = Behalter.__init__, Behalter.raum_intex

        def wi(self, *a, **kw):
            init(self, *a, **kw)
            seen.append(self)

        with Probe(rec, rng, k):
            Behalter.__init__ = wi
            try:
                r = unittest.TestResult()
                t.run(r)
            finally:
                Behalter.__init__ = init
        rec.ok('tests', 'run')
        for beh in seen[:3]:
            if len(beh.polygons) > 9:
                rec.skip('faces')
                continue
            fs = judge_faces(rec, beh, k)
            if fs is not None:
                judge_wall_sides(rec, beh, beh.raum_intex(), fs, k)
    return f


def fams(**w):
    return [(k, v, f_models(k)) for k, v in w.items()]


PROPS = {
    'V04': dict(families=fams(free=3, stack=4, four=1, mm=2, nest=1, nest3=1, chain=.5, deep=.5, shells=.5, thin=.5, outer2=.5, two=.5, jacket=2, topjacket=2, ring=1.5, jackets=1, skirt=2, jacketskirt=.5, knuckle=.5, knucklefree=1) +
                [('suite-vessels', 4, f_suite(True)), ('suite-geometry', 2, f_suite(False))], cpu_limit=240.),
}
