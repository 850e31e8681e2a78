#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
C = 'cavalier_contours/src/'
F = 'cavalier_contours_ffi/src/lib.rs'
SEG, TRAIT, VIEW, POLY = C+'polyline/pline_seg.rs', C+'polyline/traits.rs', C+'polyline/pline_view.rs', C+'polyline/pline.rs'
SI = C+'polyline/pline_seg_intersect.rs'
INTR = C+'polyline/internal/pline_intersects.rs'
OFF = C+'polyline/internal/pline_offset.rs'
BOO = C+'polyline/internal/pline_boolean.rs'
M = C+'core/math/'
SH = C+'shape_algorithms/mod.rs'
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), hook=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Vertex and segment indexes and iterators describe one curve',
  'For every polyline, open or closed, of any vertex count, the segment count, the wrapping index functions and the vertex, segment and index-pair iterators agree: they list each vertex once in order and each pair of consecutive vertexes once in order, with the closing pair last exactly when the polyline is closed. Indexes never leave the range of the vertexes and no arithmetic on them overflows.',
  'all vertex counts, indexes and offsets in range, both closed flags', 'Tests iterate over a few fixed polylines; indexes near the wrap point, one and two vertexes and large counts are not sampled.',
  [TRAIT, POLY], [('wrapping indexes and segment count', TRAIT+' next_wrapping_index, prev_wrapping_index, fwd_wrapping_index, fwd_wrapping_dist, segment_count'), ('iterators', TRAIT+' VertexIter, SegmentIter, iter_segment_indexes')])
p('C02', 'Sub-slice views traverse exactly the stretch between their two points',
  'A view created between two points of a polyline visits exactly the part of the curve from the first to the second point, following the direction of the source or its inverse, with arcs trimmed so that they stay on their circles. Its vertexes, bulges, length and iteration are those of the stand-alone polyline of that stretch, whether or not it passes the start of a closed source.',
  'every source polyline, every pair of points on it, both directions', 'Tests check a handful of slices of fixed polylines; the combinations of wrap, same segment, end at a vertex, epsilon and inversion are not covered together.',
  [VIEW], [('slice construction', VIEW+' from_slice_points, create, from_new_start, from_entire_pline'), ('vertex access through the view', VIEW+' get_vertex')])
p('C03', 'Inverting the direction gives the same curve traversed backwards',
  'Inverting a polyline keeps the set of points of the curve, every segment becomes its reverse (sign of the bulge changed) and the order of the segments is reversed. Inverting twice restores the polyline vertex for vertex; signed area and winding numbers change sign and the length stays.',
  'every polyline, open or closed, any bulges', 'Tests invert two fixed polylines.', [TRAIT], [('in place reversal of vertexes and bulges', TRAIT+' invert_direction_mut')])
p('C04', 'Arc segments have the centre, radius and tangent their bulge defines',
  'For every arc segment the reported centre is equally far from both ends at the reported radius, on the side and at the sweep that the bulge value defines, and the tangent direction at any point of the arc is perpendicular to the radius and points along the direction of travel. For straight segments the tangent is the segment direction.',
  'all end points at a positive distance and all nonzero bulges up to a half circle', 'A few fixed arcs (mostly half and quarter circles) are tested; sign and quadrant errors show only for particular bulges and orientations.',
  [SEG], [('centre and radius', SEG+' seg_arc_radius_and_center'), ('tangent', SEG+' seg_tangent_vector')])
p('C05', 'Splitting, midpoint and length of a segment stay on the curve',
  'Splitting a segment at a point on it gives two segments whose union is the original one: same circle or line, same direction, lengths adding up. The midpoint lies on the segment and halves it, and the length equals the distance or the radius times the sweep.',
  'all line and arc segments and all points on them, including the end points up to the epsilon', 'Tests split a few segments at hand picked points.',
  [SEG], [('split', SEG+' seg_split_at_point'), ('midpoint', SEG+' seg_midpoint'), ('length', SEG+' seg_length')])
p('C06', 'Bounding boxes and spatial indexes contain the curve they are built for',
  'The extents of a segment or polyline contain every point of it and each side is touched by it; the fast approximate box contains the exact box. Every segment of a polyline has its box in the spatial index created for it, in order.',
  'all segments, arcs crossing any number of quadrant boundaries, all polylines', 'A box that misses a sliver of an arc only loses intersections of particular inputs later.',
  [SEG, TRAIT], [('segment boxes', SEG+' seg_bounding_box, arc_seg_bounding_box, seg_fast_approx_bounding_box'), ('extents and indexes', TRAIT+' extents, create_aabb_index, create_approx_aabb_index')])
p('C07', 'The closest point query returns a nearest point of the curve',
  'For every query point the closest point result lies on the polyline, at the reported distance and on the reported segment, and no other point of the polyline is nearer. For an arc the nearest point is on the radius through the query if that is inside the sweep and otherwise one of the ends.',
  'all segments and polylines with at least one vertex, all query points', 'Tests query a few points against a few polylines.',
  [SEG, TRAIT], [('segment', SEG+' seg_closest_point'), ('line', M+'base_math.rs line_seg_closest_point'), ('polyline', TRAIT+' closest_point')])
p('C08', 'Line and circle intersections are complete and correct',
  'The intersection of two lines, a line and a circle, and two circles reports exactly the common points: none, a touching point, two points or an overlap, and the parameters or points reported lie on both. Nothing is reported for figures farther apart than the epsilon.',
  'all lines and circles with real coordinates, away from the epsilon boundary between two cases', 'Tests use a few configurations per case, mostly axis aligned.',
  [M+'line_line_intersect.rs', M+'line_circle_intersect.rs', M+'circle_circle_intersect.rs'], [('line line', M+'line_line_intersect.rs line_line_intr'), ('line circle', M+'line_circle_intersect.rs line_circle_intr'), ('circle circle', M+'circle_circle_intersect.rs circle_circle_intr')])
p('C09', 'Segment intersections report every common point of two segments',
  'Intersecting two segments (lines or arcs) reports a point exactly where the segments meet; each reported point lies on both segments, two points are ordered along the second segment and overlaps report the ends of the shared stretch in that order. Nothing is reported for points outside the extent of either segment.',
  'all pairs of line and arc segments in either direction, general, touching and overlapping', 'Tests cover fixed pairs; sweep direction, order and end point cases multiply.',
  [SI, M+'base_math.rs'], [('dispatch and sweep tests', SI+' pline_seg_intr'), ('sweep test', M+'base_math.rs point_within_arc_sweep')])
p('C10', 'The winding number counts the turns of the curve around the point',
  'For a closed polyline and a point off the curve the winding number is the number of signed turns of the curve around the point, arcs included; it is zero for open polylines. It does not depend on the start vertex and changes sign with the direction.',
  'all closed polylines and all points not on the curve', 'Tests check grids of points around circles and a few polygons; a wrong comparison at a vertex height shows only for points at exactly that height.',
  [TRAIT], [('winding number', TRAIT+' winding_number')])
p('C11', 'Signed area, path length and orientation measure the curve',
  'The area is the exact signed area between the segments including the arc sectors (positive counter clockwise) and zero for open polylines, the path length is the sum of the exact lengths, and the orientation follows the sign of the area. They do not depend on the start vertex and scale with the curve.',
  'all polylines with any bulges', 'Tests measure a few shapes.', [TRAIT], [('area', TRAIT+' area'), ('path length', TRAIT+' path_length'), ('orientation', TRAIT+' orientation')])
p('C12', 'Removing repeated positions keeps the curve',
  'After removing repeated positions no two consecutive vertexes, including last to first when closed, are within the epsilon; the remaining vertexes are original ones in order and every removed one is within the epsilon chain of the kept one. The curve keeps the bulge of the last vertex of each run and an input without repeats is reported unchanged; adding vertexes with the merging operations gives the same guarantee.',
  'all polylines, any runs of repeats at the start, the middle and across the closing', 'Tests have a few runs; the run across the closing of a polyline of equal positions was wrong.',
  [TRAIT, POLY], [('remove repeats', TRAIT+' remove_repeat_pos'), ('merging add', TRAIT+' add_or_replace, extend_remove_repeat')])
p('C13', 'Removing redundant vertexes keeps the curve and leaves no redundant vertex',
  'The result of removing redundant vertexes describes the same curve: collinear vertexes in the direction of travel and arcs of one circle are joined (never beyond a half circle), repeats dropped, and the ends of open polylines stay. What remains has no vertex that could still be removed and an input without redundant vertexes is reported unchanged.',
  'all polylines with any runs of redundant vertexes, arcs and repeats, open and closed', 'Tests have fixed inputs; runs across the start of a closed polyline and leading repeats were wrong.',
  [TRAIT], [('remove redundant', TRAIT+' remove_redundant')])
p('C14', 'Moving the start of a closed polyline keeps the curve',
  'Rotating the start of a closed polyline to a point on a given segment gives the same closed curve with that point first, segments in the same order and the split arc on its circle. Open polylines, too few vertexes and indexes out of range are refused.',
  'all closed polylines, all segments and points on them including vertexes up to the epsilon', 'Tests rotate one polyline to a few points.', [TRAIT], [('rotate', TRAIT+' rotate_start')])
p('C15', 'Intersection finding reports every meeting of polylines and only those',
  'Finding the intersections of two polylines, or of one with itself, reports each point where nonadjacent parts meet with the indexes of the segments that meet there, and each overlapping stretch with its ends. Nothing is reported that is not an intersection, a given spatial index does not change the result and a visitor that stops gets nothing more.',
  'all pairs of polylines, general position and shared vertexes or overlaps, all options', 'Tests check fixed polylines; a lost intersection depends on the vertex at which segments meet and on box queries.',
  [INTR], [('two polylines', INTR+' find_intersects'), ('self intersects', INTR+' visit_local_self_intersects, visit_global_self_intersects')])
p('C16', 'Boolean operations compute the set operations on the enclosed regions',
  'For two simple closed polylines, in any directions, every point off the curves is enclosed by the positive results and not by the negative ones exactly if the set expression (union, intersection, difference, symmetric difference) of the two enclosed regions contains it. The choice of start vertexes, directions and index options does not matter and swapping the operands swaps the differences.',
  'all pairs of simple closed polylines with lines and arcs, crossing, nested, disjoint, coinciding or sharing stretches', 'Tests compare property summaries of fixed cases.',
  [BOO], [('slices and stitching', BOO+' polyline_boolean, process_for_boolean, prune_slices, stitch_slices_into_closed_polylines')])
p('C17', 'Boolean results are clean closed curves with a truthful classification',
  'Every polyline of a boolean result is closed with at least two vertexes, no repeated positions and every stretch lying on one of the operands; negative results are inside positive ones. The classification (invalid input, one inside the other, disjoint, overlapping, intersected) tells the relation of the inputs and the sub-slices listed with each result are the stretches it is made of.',
  'all pairs of simple closed polylines and invalid inputs', 'Fixed cases only check vertex counts, areas and lengths.', [BOO], [('result assembly', BOO+' polyline_boolean'), ('stitching', BOO+' stitch_slices_into_closed_polylines')])
p('C18', 'Offsets of closed polylines are exactly the points at the distance inside',
  'The offset of a simple closed polyline by a distance consists of closed polylines all of whose points are at that distance from the input on the chosen side, and it encloses exactly the points farther inside (or not farther outside) than the distance. Reversal with the opposite sign, the start vertex and index options do not change it.',
  'all simple closed polylines and distances of both signs including collapse and splitting', 'Tests compare summaries of fixed cases; joins and slices that fail depend on angles, bulges and distance together.',
  [OFF], [('raw offset and joins', OFF+' create_raw_offset_polyline, create_untrimmed_raw_offset_segs'), ('slices and validity', OFF+' slices_from_raw_offset, point_valid_for_offset'), ('stitching', OFF+' stitch_slices_together')])
p('C19', 'Offsets of open polylines keep the valid part of the parallel curve',
  'The offset of a simple open polyline consists of open polylines all of whose points are at the offset distance from the input on the chosen side, and every point of the parallel curve that is nowhere nearer to the input is part of it. The order follows the input direction.',
  'all simple open polylines and distances of both signs', 'Fixed cases; the end circles and joins interact only for particular distances.',
  [OFF], [('slices from dual offsets', OFF+' slices_from_dual_raw_offsets, visit_circle_intersects')])
p('C20', 'Offsetting with self intersection handling stays sound on crossing input',
  'With self intersection handling enabled, the offset of a polyline that crosses itself consists of pieces of parallel curves at the offset distance from the whole input and contains every point of the parallel curve that is nowhere nearer to the input. It does not panic and agrees with the plain offset for simple inputs.',
  'all polylines, simple or self intersecting, open or closed', 'A few fixed self intersecting cases.', [OFF], [('dual slices for closed input', OFF+' parallel_offset, slices_from_dual_raw_offsets')])
p('C21', 'Offsetting a shape with holes offsets the region it encloses',
  'The offset of a shape made of outer polylines and holes bounds exactly the points of the region farther than the distance from all of its boundaries (or not farther outside), with outer results counter clockwise and holes clockwise. All points of the result are at the distance from the nearest boundary and the spatial index covers the results.',
  'all shapes of disjoint nested simple polylines and distances of both signs', 'One or two fixed shapes are tested.', [SH], [('slicing of offset loops and stitching', SH+' Shape::parallel_offset')])
p('C22', 'The point at a path length divides the curve at that length',
  'The point at a target path length lies on the reported segment, and the length of the curve up to it equals the target; zero gives the start. A target beyond the total length reports the total length instead.',
  'all polylines with at least two vertexes and all targets', 'Fixed polylines and targets.', [TRAIT], [('walk along the path', TRAIT+' find_point_at_path_length')])
p('C23', 'Replacing arcs by lines stays within the allowed error',
  'Converting arcs to lines gives a polyline without arcs whose vertexes lie on the original curve in order, whose chords deviate from their arcs by at most the given error, and that keeps line segments and the closed flag.',
  'all polylines and all positive errors', 'Fixed arcs and errors.', [TRAIT], [('approximation', TRAIT+' arcs_to_approx_lines')])
p('C24', 'Translation and scaling transform every point of the curve',
  'Translating and scaling act on every vertex by the exact affine map and keep bulges; so lengths scale by the factor, areas by its square, and the curve is the image of the curve.',
  'all polylines, offsets and positive scale factors', 'One fixed case each.', [TRAIT, F], [('translate', TRAIT+' translate_mut'), ('scale', TRAIT+' scale_mut')])
p('C25', 'Angle, scalar and vector functions satisfy their mathematical definitions',
  'Angle normalisation, angle differences, sweep tests, bulge and angle conversions, quadratic roots, side tests and vector operations agree with their mathematical definitions for every argument. The tolerant comparisons are symmetric, hold within the epsilon and fail beyond it.',
  'all finite arguments in the stated ranges', 'Spot values are tested; branch boundaries and signs are not.', [M+'base_math.rs', M+'vector2.rs', C+'core/traits/fuzzy_eq.rs', C+'core/traits/fuzzy_ord.rs'], [('scalar helpers', M+'base_math.rs'), ('vectors', M+'vector2.rs'), ('tolerant comparison', C+'core/traits/fuzzy_eq.rs FuzzyEq'), ('tolerant order', C+'core/traits/fuzzy_ord.rs FuzzyOrd')])
p('C26', 'The C interface reports every null pointer and bad index by error code',
  'Every function of the C interface called with null arguments or indexes beyond the count returns its documented error code (or does nothing for releases) and neither reads nor writes through the null pointer; valid calls return zero. No call lets a panic cross the boundary for valid objects.',
  'every exported function, every combination of null and valid arguments, every index', 'Only a few calls with null are tested.', [F], [('null checks and panic guard', F+' ffi_catch_unwind!')], over=('inputs', 'histories'), hook='the panic guard becomes a direct call under cfg(kani), which the verifier cannot compile')
p('C27', 'Objects of the C interface are owned once and released once',
  'Every object created through the C interface stays valid until it is released, lists own the polylines they hold until these are popped or taken, and after releasing everything that was handed out no memory is leaked, used after release or released twice. Cloned and taken polylines are independent of their source.',
  'all sequences of creating, cloning, popping, taking and releasing', 'The tests never release lists or take from them in different orders.', [F], [('list ownership', F+' cavc_plinelist_take, cavc_plinelist_pop, cavc_plinelist_f'), ('boxes', F+' cavc_pline_create, cavc_pline_f')], over=('inputs', 'histories'))
p('C28', 'The C interface gives the results of the library it wraps',
  'Each function of the C interface has the effect and result of the corresponding library operation on the same data with the same options: vertex access and edits, measures, cleanup, transforms, offsets, booleans and spatial index extents. Options objects are initialised to the library defaults.',
  'all polylines, arguments and options', 'A few calls on fixed polylines.', [F], [('wrappers', F+' cavc_*'), ('option conversion', F+' cavc_pline_parallel_offset_o, cavc_pline_boolean_o')], over=('inputs', 'histories'))
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
