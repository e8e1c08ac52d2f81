# -*- coding: utf-8 -*-
""" the properties, their modules, the number of cases (quick, thorough) and the rules that must have seen events """

DOMAIN = ['coordinates are decimals of at most 8 digits, up to some thousands, edges not shorter than 1/8 of a unit in '
          'polygons; the answers closer to the tolerances of the code (1e-8 / 1e-5) than the oracle can decide are not judged']

VESSEL = ['vessels are symmetric about a vertical axis and made of the parts the package provides; families of the '
          'workload: towers of shells, nested vessels, jackets, skirts, conical knuckles; no jacketed vessel inside another one']

REGISTRY = {
    'G01': dict(module='seg', cases=(60000, 2000000), rules=['validity', 'equal', 'hash', 'distance', 'plus', 'minus', 'refuse', 'invalid-unequal', 'empty'], assumptions=DOMAIN),
    'G02': dict(module='seg', cases=(60000, 2000000), rules=['parallel', 'collinear', 'touch', 'continuous', 'on-segment', 'on-endpoint', 'intersection-point', 'operands'], assumptions=DOMAIN),
    'G03': dict(module='seg', cases=(60000, 2000000), rules=['common-part', 'common-part-type', 'overlap', 'operands'], assumptions=DOMAIN),
    'G04': dict(module='seg', cases=(60000, 2000000), rules=['on-line', 'right', 'left', 'in-box', 'line-distance', 'angle-from-start', 'norm', 'angle-between', 'direction', 'opposite', 'equal', 'loose-equal', 'move', 'mirror'], assumptions=DOMAIN),
    'G05': dict(module='seg', cases=(30000, 1000000), rules=['divide-count', 'divide-points', 'ratio', 'split', 'ratio-refused'], assumptions=DOMAIN),
    'G06': dict(module='poly', cases=(20000, 300000), rules=['inside', 'boundary', 'outside', 'operands'], assumptions=DOMAIN),
    'G07': dict(module='poly', cases=(12000, 500000), rules=['cw', 'ccw', 'convex', 'reversed', 'start', 'mirrored'], assumptions=DOMAIN),
    'G08': dict(module='poly', cases=(3000, 80000), rules=['area', 'count', 'vertices', 'positive', 'sum', 'overlap', 'inside', 'operands'], assumptions=DOMAIN),
    'G09': dict(module='poly', cases=(6000, 120000), rules=['area', 'angles', 'quality', 'congruent', 'enclosed', 'overlap', 'touch', 'disjunct', 'polygons-disjunct'], assumptions=DOMAIN),
    'G10': dict(module='poly', cases=(10000, 200000), rules=['coordinates', 'connected', 'rigid', 'area', 'triangles', 'closed-copy', 'box', 'closed'], assumptions=DOMAIN),
    'G11': dict(module='poly', cases=(30000, 600000), rules=['crossing', 'intersecting', 'continuous', 'discontinuity', 'valid', 'closed', 'open', 'is-triangle'], assumptions=DOMAIN),
    'G12': dict(module='poly', cases=(16000, 300000), rules=['order', 'canonical', 'idempotent', 'order-open', 'walk', 'equal', 'hash', 'loose', 'loose-directed', 'subset', 'neighbour', 'find'], assumptions=DOMAIN),
    'G13': dict(module='poly', cases=(16000, 300000), rules=['mids', 'sides', 'removed', 'outliers', 'simplify', 'markers', 'operands'], assumptions=DOMAIN),
    'G14': dict(module='poly', cases=(30000, 600000), rules=['subset', 'encloses', 'ccw', 'convex', 'area', 'vertices', 'single', 'closed'], assumptions=DOMAIN),
    'G15': dict(module='poly', cases=(20000, 500000), rules=['nodes', 'close', 'closed-copy', 'append', 'append-move', 'square', 'arc', 'arc-closed', 'add', 'add-move', 'add-crossing', 'refuse'], assumptions=DOMAIN),
    'G16': dict(module='group', cases=(20000, 400000), rules=['members', 'numbered', 'edgelist', 'adjacency', 'degree', 'by-points', 'by-equality', 'valid', 'operands'], assumptions=DOMAIN),
    'G17': dict(module='group', cases=(60000, 2000000), rules=['count', 'points', 'on-sphere', 'operands'], assumptions=['coordinates are multiples of 1/8 up to some tens, so that the discriminant is exact in floating point']),
    'G18': dict(module='group', cases=(20000, 300000), rules=['repr', 'str', 'kinds', 'copy', 'independent', 'own-list'], assumptions=DOMAIN),
    'V01': dict(module='vessel', cases=(4000, 60000), rules=['shape', 'open-side', 'height', 'graph', 'valid', 'size', 'shell-area'], assumptions=VESSEL),
    'V02': dict(module='vessel', cases=(4000, 60000), rules=['marker-kinds', 'marker-owner', 'marker-off-wall', 'marker-side', 'marker-near'], assumptions=VESSEL),
    'V03': dict(module='vessel', cases=(2500, 60000), rules=['answer', 'cutter', 'untouched', 'walls', 'open', 'graph', 'markers-renewed', 'length'], assumptions=VESSEL),
    'V04': dict(module='insitu', cases=(160, 2000), rules=['operands', 'faces', 'wall-sides'], assumptions=VESSEL, technique='runtime monitoring: in-situ instrumentation of the real code (wrapped methods) with an exact online checker of every sampled internal call'),
    'V05': dict(module='vessel', cases=(320, 2500), rules=['room-count', 'outline', 'parts-of-cycle', 'outer-walls', 'inner-walls', 'area', 'common-walls', 'contained', 'ordered', 'wall-outline', 'parts-unchanged'], assumptions=VESSEL),
    'V06': dict(module='vessel', cases=(250, 2500), rules=['room-count', 'outline', 'side', 'side-parts', 'unchanged', 'again'], assumptions=VESSEL),
    'V07': dict(module='vessel', cases=(120, 1200), rules=['order-walls', 'order-sides', 'moved-walls', 'moved-sides', 'subdivided'], assumptions=VESSEL),
    'V09': dict(module='vessel', cases=(300, 4000), rules=['knuckle', 'knuckle-open', 'cone', 'cylinder', 'lower', 'tangent', 'refused', 'closed'], assumptions=VESSEL),
    'V11': dict(module='vessel', cases=(120, 1500), rules=['names', 'again', 'polygons', 'renamed', 'rebuilt'], assumptions=VESSEL),
    'V12': dict(module='vessel', cases=(6000, 80000), rules=['accepted', 'not-accepted', 'operands'], assumptions=VESSEL),
    'V10': dict(module='vessel', cases=(700, 10000), rules=['class', 'attributes', 'same', 'missing', 'unknown'], assumptions=VESSEL),
}
