#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" writes properties.jsonl and MANIFEST.json: python3 tools/make_lists.py """
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from registry import REGISTRY  # noqa

PT, LI, PO, GR, AD, HT = ('geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py',
                          'geometry/SR_polygon_group.py', 'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py')


def M(*xs):
    out = []
    for f, names in xs:
        for n in names.split():
            out.append(dict(name=n, where=f))
    return out


P = {}


def prop(id, title, statement, over, text, why, mech):
    P[id] = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                 why_tests_cant=' '.join(why.split()), anchors=dict(files=sorted({m['where'] for m in mech}), mechanism=mech))


# ---------------------------------------------------------------------------------------------------- vessels
prop('V05', 'The rooms of a vessel are the closed areas of its section, with the right walls', """
Building a vessel from its parts, given in any order, finds exactly the closed areas the walls enclose in the section: no
room is missing, none is reported twice, no union of rooms is a room, each with its right outline and area. For each room the outer walls are exactly the parts on its
outline, the inner walls exactly the parts of the vessels that lie in it, all walls both of these, and the common walls reported for two rooms are exactly
the parts that separate them. Building leaves the coordinates and the validity of the parts as they were, except the parts cut by the end of a room.""",
     ['inputs', 'histories'], """all vessels symmetric about a vertical axis made of shells, conical and cylindrical, torispherical and flat heads, ends of rooms,
skirts and conical knuckles: towers, nested vessels up to three deep, vessels side by side, jackets, skirts; all orders of the parts, positions and sizes""",
     """the tests build some twenty fixed vessels near the origin in one order each; the rooms depend on the combination of the parts, on coincidences (equal areas, shared
corners, walls of equal directions) and on their order""",
     M((GR, 'BehalterGraph.cycles BehalterGraph.find_loops BehalterGraph.keep_base_polygons BehalterGraph.contained_cycles BehalterGraph.overlaps_in_cycles BehalterGraph.segments_in_cycles PolygonGroup.cycles'),
       (HT, 'Behalter.raum_erstellen Behalter.cut_by_raumende Raum'), (PO, 'walk_segments')))

prop('V06', 'Each part of a vessel is reported with the rooms on its proper sides', """
For every part of a vessel the description of the sides names exactly the rooms that touch it on its inner side, exactly those that touch it on its outer
side, and, for flat heads without an inner side, exactly those on both sides; ends of rooms name none, and a side that no room touches is empty. The answer covers every part, does not change the
vessel and is the same when it is asked for again.""",
     ['inputs', 'histories'], 'as for the rooms of a vessel; the one listed exception is the sharp (r=0) conical knuckle with a part below it, whose outer side stays empty',
     """the tests compare the description for some fixed vessels; it is derived from marker points that depend on the sizes of all neighbours, so each combination and each size is a case of its own""",
     M((HT, 'Behalter.raum_intex Mantel.intex_points TorispherischesBoden.intex_points Flachboden.intex_points KegelKrempe.intex_points'), (PO, 'PolygonLine.is_internal_point PolygonLine.is_on_boundary')))

prop('V07', 'Equal vessels are described equally: part order, position, subdivided shells', """
The rooms with their walls and the sides of all parts do not depend on the order in which the parts are given nor on where the vessel stands. A shell
made of two shells on top of each other spans the same rooms, and both halves see the rooms the whole one saw.""",
     ['inputs', 'histories'], 'all vessels of the families above, all permutations of their parts, displacements in both directions, places of the division',
     'no test builds the same vessel twice in different descriptions; a relation between two runs needs pairs of inputs',
     M((HT, 'Behalter'), (GR, 'BehalterGraph')))

prop('V11', 'A finished vessel answers every question the same, whatever was asked before', """
The questions a finished vessel answers (walls of rooms, sides of parts, common walls, rooms in rooms, outlines, room polygons) give the same answers
however often, in whichever order and under whichever room names they are asked. The rooms of a new vessel are named R1, R2 and so on, a renamed room
is used under its new name everywhere, each room polygon is made of exactly the walls of its room, and building a vessel again from the same parts gives the same vessel.""",
     ['histories', 'inputs'], 'all sequences of questions and renamings on all vessels of the families above',
     'the tests ask one question of one new vessel; state left behind by an earlier question shows only in sequences',
     M((HT, 'Behalter Raum.set_name Raum.graph_as_polygon Raum.as_polygon Raum.innere_wandung'), (GR, 'BehalterGraph')))

prop('V04', 'Every geometrical answer used while a vessel is built and described is right', """
Whenever a vessel is built, cut or described, each geometrical question the package asks on the way of its own segments, polygons and triangles (touching, continuing, parallel, collinear, crossing, common
part, on the line, inside, on the boundary, orientation, closedness, order, walk, hull, partition into triangles) gets the exact answer for the coordinates at hand, and no question changes what it was asked about. The rooms
found are exactly the bounded faces of the plane graph of all walls, and each wall is reported with the rooms directly beside its middle.""",
     ['histories', 'inputs'], """all calls made during construction and description of vessels of all families, and of the vessels and polygons of the project's own tests; judged are the first
calls of each kind and a random share of the others""",
     """a test sees the final answer of a fixed vessel only; wrong intermediate answers (which an even number of errors, a later filter or luck can hide) are not looked at, and
the coordinates that occur inside (cut walls, marker points, random rays) are never chosen by a test""",
     M((HT, 'Behalter Behalter.raum_intex'), (GR, 'BehalterGraph.find_loops BehalterGraph.keep_base_polygons BehalterGraph.contained_cycles'), (PO, 'PolygonLine.is_internal_point PolygonLine.order PolygonLine.triangle_mesh walk_segments convex_hull'), (LI, 'LineSegment.common_part LineSegment.intersection_on_segment')))

prop('V01', 'Every vessel part has the documented shape, walls and open sides', """
For all sizes and positions a shell has two straight side walls and two open ends, a skirt has its lower end walled as well, a head has a wall of the right rise, curvature radii and
tangent arcs that meets its open side exactly, and flat heads and ends of rooms are one horizontal wall. Each part is valid, closed where it has an open side, and its
simplified graph joins the same end points as its walls; the height of a head, the area of a shell and the characteristic sizes are the geometrical ones.""",
     ['inputs'], 'diameters, heights and straight flange heights over four orders of magnitude, positions on both sides of the origin, both orientations of heads',
     'the tests draw one or two sizes of each part at the origin and check the validity flag',
     M((HT, 'Mantel.make_segments TorispherischesBoden.make_segments TorispherischesBoden.h_graph StandZarge.make_segments Flachboden RaumEnde Mantel.isvalid Hauptteil.graph Hauptteil.characteristic_size'), (GR, 'Graph'), (PO, 'arc')))

prop('V02', 'Marker points of a part lie on the side of its wall they mark', """
All marker points of a part belong to a wall of its simplified graph, lie off every wall of the part and closer to their own wall than half its length: internal ones inside the section of the
part, external ones outside of it, those of a flat head one above and one below. Each wall has marker points of exactly the kinds its part calls for, also after the part has been cut.""",
     ['inputs', 'histories'], 'all parts, sizes, positions and orientations, before and after cuts',
     'tests look at the number of the marker points of some parts only; whether a point is on the right side depends on the proportions',
     M((HT, 'Mantel.intex_points TorispherischesBoden.intex_points Flachboden.intex_points RaumEnde.intex_points'), (GR, 'Graph.add_intex_points Graph.renew'), (PO, 'PolygonLine.add_internal_point PolygonLine.add_external_point PolygonLine.add_indifferent_point')))

prop('V03', 'Cutting a shell divides its walls at the height of the cut and nothing else', """
A cut of a shell strictly between its ends divides both side walls at exactly that height; the sum of the lengths, the outline, the open ends stay and the
simplified graph and the marker points are renewed to match the walls. A cut at an end, outside, repeated, or of another part than a shell reports that nothing was done and
changes nothing. An end of room used as the cutter keeps its shape, or, if it is not to be kept, its section inside the shell becomes open.""",
     ['inputs', 'histories'], 'all shells, sequences of up to three cuts by height or by an end of a room with and without keeping it',
     'the tests cut two cylinders once each; order and repetition of cuts and conical shells are not sampled',
     M((HT, 'Hauptteil.split Behalter.cut_by_raumende'), (GR, 'Graph.renew')))

prop('V09', 'A conical knuckle joins cone and cylinder tangentially and shortens both exactly', """
A knuckle between a cone and the cylinders above and below it replaces exactly the straight pieces of the given lengths next to the joint (by an arc of the
given radius tangential to both, if there is one), and the cone, the cylinder above and the part below end exactly where it begins, also in their simplified graphs. A part below joins at the upper end of the arc, or at the joint if there is
none. Cones that do not open upwards, lengths that are not positive and arcs that do not end on both walls are refused.""",
     ['inputs'], 'cone angles, lengths, radii including zero, with and without a shell or skirt below, positions of the axis',
     'the tests build three knuckles with one geometry each',
     M((HT, 'KegelKrempe.make_segments KegelKrempe.assert_checking KegelKrempe.__init__')))

prop('V12', 'Descriptions of sides match exactly if one renaming of rooms makes them equal', """
Two descriptions of the sides of the parts of a vessel are accepted as the same exactly if there is one and only one one-to-one renaming of the rooms of the one
that makes it the other; descriptions with other parts, other sides, or another number of rooms, and ambiguous ones, are refused. Neither description is changed.""",
     ['inputs'], 'descriptions with up to five rooms and six parts, renamed, with rooms moved, added, dropped, exchanged; descriptions of real vessels built twice',
     'the tests compare each of some vessels with one pattern that matches',
     M((HT, 'raum_dict_checker')))

prop('V10', 'A part made from a dict equals the part made directly; wrong keys are refused', """
For every kind of part the dict constructor gives a part of the very same class with the given attributes and the same walls, graph and marker points as direct
construction and leaves the dict unchanged. A dict with a missing or, apart from knuckles, an unknown key is refused.""",
     ['inputs'], 'all kinds of parts with random attributes, each key left out in turn',
     'the tests make one part of some kinds from a dict',
     M((HT, 'Mantel.from_dict Klopperboden.from_dict Korbbogenboden.from_dict Flachboden.from_dict RaumEnde.from_dict StandZarge.from_dict KegelKrempe.from_dict')))

# ---------------------------------------------------------------------------------------------------- geometry
prop('G06', 'Inside, outside and boundary of a closed polygon are told apart correctly', """
For every simple closed polygon, convex or not, in any orientation and position, a point is reported as internal exactly if it is strictly inside and as on the boundary exactly if it lies on an edge
or a vertex, and as external exactly if it is not internal. Moving, rotating or mirroring polygon and point together does not change the answer, and the question does not change the polygon.""",
     ['inputs'], 'all simple polygons and points, including points level with vertices, on extensions of edges, very near to edges, and polygons far from the origin',
     'the tests ask for some ten points of convex polygons near the origin; a ray test fails for special positions only',
     M((PO, 'PolygonLine.is_internal_point PolygonLine.is_external_point PolygonLine.is_on_boundary'), (LI, 'LineSegment.is_internal_point LineSegment.intersection_on_segment')))

prop('G08', 'Triangulation partitions a polygon; the area is the true area', """
For every simple closed polygon the triangulation consists of n-2 triangles with vertices of the polygon that have positive area, lie inside of it, do not overlap and
add up exactly to its area; the area reported in total and by triangle is the true one for both orientations, and neither changes the polygon.""",
     ['inputs'], 'simple polygons with 3 to some 40 vertices: convex, star shaped, combs, spirals, orthogonal, with collinear vertices, both orientations',
     'the tests triangulate a few polygons and compare the sum; overlapping or outer triangles can add up to the same sum',
     M((PO, 'PolygonLine.triangulate PolygonLine.triangle_mesh PolygonLine.area PolygonLine.detailled_area')))

prop('G07', 'Orientation and convexity are the geometrical ones for every simple polygon', """
Clockwise and counterclockwise are reported by the signed area of the polygon, convexity by the turns of its boundary where straight angles are allowed. They do not depend on the vertex
the description starts with; reversal and mirroring exchange the orientations.""",
     ['inputs'], 'all simple closed polygons, concave ones with more right than left turns, collinear vertices, all starting vertices',
     'the tests sample a handful of convex polygons; concave ones are where turns and area disagree',
     M((PO, 'PolygonLine.iscw PolygonLine.isccw PolygonLine.isconvex PolygonLine.cps')))

prop('G10', 'Moving, rotating, mirroring and closing keep a polygon intact after any history', """
After every sequence of moves, rotations, mirrorings, appended points and closings the coordinates are those of the mathematical transformation, consecutive segments still share
their points, and area, triangles, bounding box and closedness are those of the current shape. A closed copy is closed and leaves the original as it was.""",
     ['histories', 'inputs'], 'all sequences of up to eight operations on open and closed polygons with shared or separate points',
     'each test applies one transformation to one polygon; points shared between segments and cached results only show in sequences',
     M((PO, 'PolygonLine.move PolygonLine.rotate_about_origin PolygonLine.rotate_about_xy PolygonLine.mirror_vertical PolygonLine.purge PolygonLine.close PolygonLine.closed_copy PolygonLine.bounding_box PolygonLine.append_point_at_end PolygonLine.append_point_at_beginning')))

prop('G12', 'Ordering, walking and comparing polygons do not depend on how they are listed', """
The segments of a cycle, listed in any order and direction, are ordered into a continuous closed chain of the same edges with a canonical start and a second ordering changes nothing; an open chain is not ordered. Walking along segments returns the
polygon for a single cycle and refuses open or branching sets without changing them. Equality and hash agree, loose equality ignores order and direction of the segments (or order only, on demand), loose subset means
inclusion of the edges, and the neighbours and segments of a point are exactly those that meet it.""",
     ['inputs', 'histories'], 'all simple cycles with 3 to several hundred segments, all permutations and reversals; sets with chords and gaps',
     'the tests order two fixed lists of segments',
     M((PO, 'PolygonLine.order walk_segments PolygonLine.__eq__ PolygonLine.__hash__ PolygonLine.loose_equal PolygonLine.loose_subset PolygonLine.neighbour PolygonLine.find_segment_by_point PolygonLine.next_segment')))

prop('G11', 'Crossings, gaps, closedness and validity of a chain of segments are exact', """
For every chain of segments the crossing pairs are exactly the pairs that share a point which is not a common end point or that overlap, the discontinuities exactly the segments that do not start where
the previous one ends, and a chain is valid, closed, open or a triangle exactly if it is continuous without crossings, continuous and returning, not so, or closed with three segments.""",
     ['inputs'], 'chains of up to ten segments on lattices, where touching, overlapping and crossing segments are frequent, and random ones',
     'the tests use a handful of polygons',
     M((PO, 'PolygonLine.crossing_lines intersecting_lines PolygonLine.discontinuity PolygonLine.iscontinuous PolygonLine.isvalid PolygonLine.isclosed PolygonLine.isopen PolygonLine.is_triangle')))

prop('G09', 'Triangles: measures and relative positions are exact and consistent', """
Area, angles (adding up to 180 degrees) and quality of a triangle are the mathematical ones whatever the order and position of its vertices. For two triangles congruent, enclosed, touching, and disjunct are reported exactly as their
closed areas have the position, two closed polygons are disjunct exactly if they have no point in common, and no question changes its operands.""",
     ['inputs'], 'pairs of triangles on lattices: common edges, common corners, corners on edges, enclosed, crossing; pairs of polygons',
     'the tests classify about twenty pairs',
     M((PO, 'Triangle.area Triangle.angles Triangle.quality Triangle.congruent Triangle.enclosed Triangle.overlap Triangle.touch Triangle.disjunct PolygonLine.disjunct')))

prop('G13', 'Simplifying keeps the geometry: collinear points, outliers, equal segments', """
The collinear points reported for a closed polygon are exactly the vertices on straight parts of its boundary, and removing them leaves a closed polygon with exactly the other vertices. Removing outliers from a set of segments removes those with a loose end
until no loose end is left, and nothing else, and simplifying joins exactly the equal neighbours; the input is not changed by the functions that return a result.""",
     ['inputs'], 'polygons with and without collinear vertices, sets of segments with loose ends and trees attached',
     'one polygon with collinear points and one set with outliers are tested',
     M((PO, 'PolygonLine.collinear_points remove_collinear_points remove_outlier_segments simplify')))

prop('G14', 'The convex hull is the smallest convex polygon around the points', """
For every set of points that are not all on one line the convex hull is a closed, valid, counterclockwise convex polygon whose vertices are points of the set, each once, which encloses all points and has exactly the
vertices and the area of the true hull. One or two points are returned as they are, and the given points are not changed.""",
     ['inputs'], 'point sets with repetitions, collinear points, lattices, circles, up to some hundred points',
     'one set of points is tested', M((PO, 'convex_hull')))

prop('G15', 'Polygons are built with the points asked for, in the order asked for', """
A polygon from nodes has exactly these nodes in order or, if the other orientation is asked for, reversed; squares and arcs have the exact corner points, radius, angles, number of points and orientation. Points are appended at either end as asked and move with the polygon afterwards,
closing joins the ends once, and adding polylines connects them in order, leaving the operands unchanged and refusing results that cross. Wrong arguments are refused.""",
     ['inputs', 'histories'], 'all node lists, radii, angles and numbers of points, appended points that are new or already used, all pairs of polylines',
     'one square, two arcs and two additions are tested',
     M((PO, 'polygon_from_nodes square arc add PolygonLine.append_point_at_end PolygonLine.append_point_at_beginning PolygonLine.close')))

prop('G16', 'Graph views of a group of polylines agree with its segments', """
For every group of polylines the numbered points are its distinct points with consecutive numbers, edge list, adjacency lists (by points and by numbers) and node degrees are exactly those of its segments, and a group is valid exactly if its polylines
are valid and the node degrees are as documented. Polylines are found by points and by equality, unknown ones refused, and no view changes the group.""",
     ['inputs'], 'groups of one to seven polylines between lattice points with nodes of degree 1 to 8; cycles with and without a dividing wall',
     'the tests read the views of one or two groups',
     M((GR, 'PolygonGroup.points_numbered PolygonGroup.as_edgelist PolygonGroup.as_adjacency_list PolygonGroup.node_degree PolygonGroup.isvalid PolygonGroup.segments_from_points PolygonGroup.polygon_from_repr PolygonGroup.representative_graph PolygonGroup.all_segments')))

prop('G02', 'Segments: parallel, collinear, touching, continuing and meeting are exact', """
For every two valid segments it is reported correctly whether they are parallel or collinear, share exactly one end point, continue each other, meet at an end point or anywhere, and where their lines meet; the answers for exchanged operands agree
and no question changes its operands.""",
     ['inputs'], 'pairs of segments in general and in all special positions (T and L junctions, overlaps, parallels, common ends), lengths over six orders of magnitude, positions far from the origin',
     'about fifty pairs are tested, mostly with small integers; rounding shows at other sizes',
     M((LI, 'LineSegment.is_parallel LineSegment.is_collinear LineSegment.touch LineSegment.continuous LineSegment.is_intersecting LineSegment.intersection_point LineSegment.intersection_on_segment LineSegment.intersection_on_endpoint')))

prop('G03', 'The common part of two segments is exactly the set of their common points', """
For every two valid segments the common part is nothing, the one common point, or the common section, exactly as the point sets have it, its type is named accordingly, and
overlap is reported exactly if there is a common section of positive length; both operands in either order and direction give the same.""",
     ['inputs'], 'as for the positions of segments, in particular collinear pairs that overlap, contain each other, are equal, reversed, or touch at an end',
     'the tests sample horizontal and vertical pairs', M((LI, 'LineSegment.common_part LineSegment.common_part_type LineSegment.overlap')))

prop('G04', 'Segments and points: sides, distances, angles, directions and moves are exact', """
For every valid segment and point it is reported correctly whether the point is on the line, to the right or left of it and how far; length, angles, directions, equality with and without direction, opposite direction, moving,
reversing and mirroring are the mathematical ones.""",
     ['inputs'], 'segments in all directions, lengths from fractions to thousands, points on, near and far from the line',
     'the tests sample axis parallel and diagonal segments',
     M((LI, 'LineSegment.is_point_on_line LineSegment.is_point_to_right LineSegment.is_point_to_left LineSegment.line_point_distance LineSegment.is_internal_point LineSegment.angle_between_lines LineSegment.angle_from_start_point LineSegment.direction LineSegment.opposite_direction LineSegment.norm LineSegment.loose_equal LineSegment.move LineSegment.mirror_vertical LineSegment.reverse')))

prop('G05', 'Dividing a segment gives equal consecutive pieces that join up to it', """
Dividing a segment into n pieces gives n connected segments of equal length from its start to its end, the point at a ratio is exactly there, splitting at a point of the segment gives the two
pieces that meet there, and ratios or numbers out of range are refused.""",
     ['inputs'], 'all segments, 1 to 30 pieces, all ratios between and outside 0 and 1', 'one segment is divided in the tests',
     M((LI, 'divide_line point_on_line_at_ratio add_point_on_line')))

prop('G01', 'Points: validity, equality, hash, distance, sums and differences are exact', """
A point is valid exactly if it has two finite numbers as coordinates, also after they have changed; equal points have equal coordinates within the tolerance, equal coordinates mean equal points and equal hashes, invalid points are unequal to everything. Distance, sum and difference
are the mathematical ones and everything else than a point is refused.""",
     ['inputs', 'histories'], 'coordinates of all magnitudes, int and float, tuples of other lengths, strings, booleans, None; changed coordinates',
     'a few points are tested', M((PT, 'Point.isvalid Point.__eq__ Point.__hash__ Point.distance Point.__add__ Point.__sub__ distance')))

prop('G17', 'A line meets a sphere in exactly the points computed', """
For every line through two different points and every sphere the computed points are exactly the common points of line and sphere: none, one where the line is tangential, or two, and they lie on the sphere.""",
     ['inputs'], 'lines and spheres with coordinates of multiples of 1/8 up to some tens, among them exact tangents and lines through the centre', 'no test calls the function',
     M((AD, 'sphere_line_intersection')))

prop('G18', 'Textual forms rebuild the object; copies are equal and independent', """
Evaluating the textual form of a valid point, segment, wall, polyline or group gives an equal object of the same kinds, while an object that is not valid says so. Segments of different kinds are not equal. What happens to a deep copy
does not happen to the original and vice versa, and a polyline does not share the list it was made from.""",
     ['inputs', 'histories'], 'all kinds of objects with random coordinates; sequences of up to three changes of a copy and of the original',
     'the tests compare a few fixed strings',
     M((PT, 'Point.__repr__ Point.__str__'), (LI, 'LineSegment.__repr__ LineSegment.__eq__'), (PO, 'PolygonLine.__repr__ PolygonLine.__init__'), (GR, 'PolygonGroup.__repr__'), (HT, 'Wall NonWall')))

try:
    from more_properties import more
    more(prop, M, (PT, LI, PO, GR, AD, HT))
except ImportError:
    pass

NOTE = """Runs the real code of the working tree on generated inputs of the property's families and lets an independent oracle (exact integer or rational arithmetic, or the
geometry known by construction) judge every observed call; no rule is judged by the code under test itself. Exploration: what was not executed is not covered; the evidence counts judged events, outcomes
per rule and distinct inputs, and a rule without any event fails the check. Trusted: the oracles and models in mon/, PyPy's float arithmetic."""
NOTES = {
    'V06': ' Listed finding: krempe-r0-aussenraum (KNOWN_FINDINGS.txt).',
}


def main():
    ids = list(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i in ids:
            assert len(P[i]['title']) <= 80, (i, len(P[i]['title']))
            f.write(json.dumps(P[i]) + '\n')
    checks = []
    for i in ids:
        if i not in REGISTRY:
            continue
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=REGISTRY[i].get('technique', 'runtime monitoring: trace oracle over the executed calls of the real code, randomized and adversarial workloads'),
                           level='exploration', level_note=' '.join((NOTE + NOTES.get(i, '')).split())))
    assert set(REGISTRY) <= set(P), set(REGISTRY) - set(P)
    na = [dict(property=i, reason='not claimed') for i in ids if i not in REGISTRY]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 -c pass', checks=checks, not_applicable=na,
                       notes='no hooks in /repo: the monitors wrap the code from outside'), f, indent=1)
        f.write('\n')


main()
