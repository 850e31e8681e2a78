"""Which contracts decide which property."""
TRUSTED = [
    'machine arithmetic is treated as real arithmetic in the proofs (the same contracts are evaluated at f64)',
    'sin, cos, tan, atan, atan2, acos are represented by points on the unit circle with the exact addition theorems (sym/src/sym.rs)',
    'z3, cvc5, and the normal form simplifier of the generator (sym/src/poly.rs, sym/src/engine.rs)',
    'rustc compiles the same generic functions for the symbolic and for the f64 scalar',
    'external crate static_aabb2d_index (executed, not specified)',
]
P = 100000


def plan(level, note, prove=(), search=None, n=100000, extra=None, **k):
    s = {c: n for c in prove}
    s.update(search or {})
    d = dict(level=level, note=note, prove=list(prove), search=s)
    d.update(k)
    return d


ITER = ['index::wrapping_neighbours', 'index::wrapping_distance', 'index::segment_count', 'index::iterators_start', 'index::iterators_bounded',
        'iter::iterator_init', 'iter::vertex_iterator_step', 'iter::segment_iterator_step', 'iter::index_iterator_step']
CMP = ['compare::at_%s::%s' % (t, n) for t in ('f64', 'f32') for n in ('equality', 'equality_symmetric', 'equality_reflexive', 'equality_default', 'order', 'order_weaker', 'range', 'order_default', 'constants')]

PLAN = {
    'C01': plan('proof', 'all vertex counts and indexes, iterators by induction over the items given out', [], {'indexes': 3 * P}, kani=ITER),
    'C02': plan('proof', 'view records and vertex sequences for any number of vertexes (Verus); geometry of the stretch for sources with at most 5 vertexes over all reals', ['view', 'view_entire', 'view_new_start'], total=110),
    'C03': plan('proof', 'any number of vertexes (Verus); involution, area and winding signs for at most 5 vertexes', ['invert']),
    'C04': plan('proof', 'centre, radius and tangent of every arc', ['arc_radius_center', 'arc_center', 'arc_tangent']),
    'C05': plan('proof', 'splits, midpoints and lengths of all segments; 7 of 199 paths of arc_split undecided in time and evaluated', ['arc_split', 'split_ends', 'line_split', 'arc_length_mid', 'line_length_mid']),
    'C06': plan('proof', 'segment boxes, extents and index contents without a bound', ['line_boxes', 'arc_box', 'fast_box', 'sagitta_lemma', 'extents', 'aabb_indexes']),
    'C07': plan('proof', 'segments without a bound, minimality over any number of segments (Verus)', ['line_closest', 'arc_closest', 'arc_closest_center', 'closest'], total=90),
    'C08': plan('proof', 'lines and circles', ['ll_cross', 'll_parallel', 'll_collinear', 'll_points', 'lc_two', 'lc_none', 'lc_point', 'cc', 'cc_concentric']),
    'C09': plan('other', 'line segments and sweep tests proved, arcs evaluated', ['sector', 'll_cross', 'll_parallel', 'll_collinear', 'la_found'], {c: 3 * P for c in ['la_sound', 'aa_found', 'aa_sound', 'aa_overlap', 'aa_touch']} | {'ends_near': 8 * P}, n=200000, total=20, thorough=['la_sound', 'aa_found', 'aa_sound', 'aa_overlap', 'aa_touch']),
    'C10': plan('other', 'the sum over the segments for any number of vertexes (Verus); contribution of arcs for two segment curves and lines for triangles over all reals', ['winding_lines', 'winding_arcs'], n=50000),
    'C11': plan('proof', 'sums of exact segment terms for any number of vertexes (Verus); scaling and start independence for at most 4 vertexes', ['area', 'path_length'], total=120),
    'C12': plan('proof', 'any number of vertexes (Verus)', ['repeat_pos', 'add_repeat', 'repeat_any']),
    'C13': plan('other', 'polylines with straight sides and few redundant vertexes over all reals, arcs evaluated', ['redundant', 'redundant_point', 'redundant_spike'], {'redundant_arcs': P}, total=120),
    'C14': plan('proof', 'any number of vertexes (Verus); geometry for at most 4 vertexes over all reals', ['rotate_start']),
    'C15': plan('other', 'bounded evaluation against an independent intersection oracle; visiting and collecting for any vertex count (Verus)', [], {'find_general': 8 * P, 'find_special': 8 * P, 'self_general': 8 * P, 'self_special': 8 * P}, search_s=60),
    'C16': plan('other', 'rectangles over all reals, other curves evaluated', ['rect_and'], {'bool_algebra': 5 * P, 'bool_grid': 5 * P, 'bool_self': 5 * P, 'bool_invariance': 5 * P, 'bool_shared': 10 * P}, search_s=120),
    'C17': plan('other', 'bounded evaluation', [], {'bool_form': 5 * P, 'bool_grid_form': 5 * P, 'bool_self': 5 * P, 'bool_shared_form': 10 * P}, search_s=100),
    'C18': plan('other', 'rectangles over all reals, other curves evaluated', ['rect_offset_in', 'rect_offset_out'], {'offset_closed': 10 * P, 'offset_invariance': 5 * P, 'offset_collapse': 2 * P}, search_s=100),
    'C19': plan('other', 'bounded evaluation', [], {'offset_open': 20 * P}, search_s=60),
    'C20': plan('other', 'bounded evaluation', [], {'offset_self': 20 * P}, search_s=60),
    'C21': plan('other', 'bounded evaluation', [], {'shape_offset': 20 * P, 'offset_collapse': 2 * P}, search_s=90),
    'C22': plan('proof', 'any number of vertexes (Verus)', ['point_at_length']),
    'C23': plan('proof', 'vertexes and sweeps of the chords for any number of vertexes (Verus); measured deviations evaluated', [], {'arcs_lines': 2 * P}),
    'C24': plan('proof', 'any number of vertexes (Verus)', ['translate_scale']),
    'C26': plan('other', 'call histories of the exported functions with null, dangling-free and out of range arguments', [], ffi=40000, kani=['ffi::null_objects', 'ffi::boolean_arguments', 'ffi::vertex_access', 'ffi::vertex_remove']),
    'C27': plan('other', 'call histories with an instrumented allocator and ghost copies of every object', [], ffi=40000, kani=['ffi::list_ownership', 'ffi::clone_independent']),
    'C28': plan('other', 'call histories against the same library calls on ghost copies', [], ffi=40000, kani=['ffi::vertex_access', 'ffi::option_defaults']),
    'C25': plan('proof', 'scalar, angle and vector functions', ['normalize', 'delta', 'between', 'bulge_angle', 'quadratic', 'sides', 'parametric', 'circle_point', 'vectors'], kani=CMP, kani_s=400),
}
NOT_APPLICABLE = {}
HOOKS = {'guard': 'cfg(kani)', 'enable': 'cargo kani sets cfg(kani) when it compiles /repo as a dependency of /verif/kani',
         'source_commits': ['e6cb3e0ef52e7fd1fc164b28589dcc2049cad6bd', 'c5072e248a62663fe2f8afa2369c24fd1c0a9490']}
