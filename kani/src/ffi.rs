//! C26, C27, C28: the C interface on the real code with memory safety checks: null arguments, indexes,
//! ownership of objects. Panics are violations here (the guard is a direct call under the verifier).
use cavalier_contours::polyline::*;
use cavalier_contours_ffi::*;
use std::ptr::{null, null_mut};

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
/// null objects: the error code, and no out argument is touched (all are null here)
#[kani::proof]
#[kani::unwind(2)]
fn null_objects() {
    let (x, y, z): (f64, f64, f64) = (kani::any(), kani::any(), kani::any());
    let (k, f): (u32, u8) = (kani::any(), kani::any());
    unsafe {
        assert!(cavc_pline_parallel_offset_o_init(null_mut()) == 1, "parallel_offset_o_init");
        assert!(cavc_pline_boolean_o_init(null_mut()) == 1, "boolean_o_init");
        assert!(cavc_pline_reserve(null_mut(), k) == 1, "reserve");
        assert!(cavc_pline_clone(null(), null_mut()) == 1, "clone");
        assert!(cavc_pline_get_is_closed(null(), null_mut()) == 1, "get_is_closed");
        assert!(cavc_pline_set_is_closed(null_mut(), f) == 1, "set_is_closed");
        assert!(cavc_pline_get_vertex_count(null(), null_mut()) == 1, "get_vertex_count");
        assert!(cavc_pline_get_vertex_data(null(), null_mut()) == 1, "get_vertex_data");
        assert!(cavc_pline_set_vertex_data(null_mut(), null(), k) == 1, "set_vertex_data");
        assert!(cavc_pline_clear(null_mut()) == 1, "clear");
        assert!(cavc_pline_add(null_mut(), x, y, z) == 1, "add");
        assert!(cavc_pline_get_vertex(null(), k, null_mut()) == 1, "get_vertex");
        assert!(cavc_pline_set_vertex(null_mut(), k, cavc_vertex { x, y, bulge: z }) == 1, "set_vertex");
        assert!(cavc_pline_remove(null_mut(), k) == 1, "remove");
        assert!(cavc_pline_eval_path_length(null(), null_mut()) == 1, "eval_path_length");
        assert!(cavc_pline_eval_area(null(), null_mut()) == 1, "eval_area");
        assert!(cavc_pline_eval_wn(null(), x, y, null_mut()) == 1, "eval_wn");
        assert!(cavc_pline_invert_direction(null_mut()) == 1, "invert_direction");
        assert!(cavc_pline_scale(null_mut(), x) == 1, "scale");
        assert!(cavc_pline_translate(null_mut(), x, y) == 1, "translate");
        assert!(cavc_pline_remove_repeat_pos(null_mut(), x) == 1, "remove_repeat_pos");
        assert!(cavc_pline_remove_redundant(null_mut(), x) == 1, "remove_redundant");
        assert!(cavc_pline_eval_extents(null(), null_mut(), null_mut(), null_mut(), null_mut()) == 1, "eval_extents");
        assert!(cavc_aabbindex_get_extents(null(), null_mut(), null_mut(), null_mut(), null_mut()) == 1, "aabbindex_get_extents");
        assert!(cavc_plinelist_get_count(null(), null_mut()) == 1, "plinelist_get_count");
        assert!(cavc_plinelist_get_pline(null(), k, null_mut()) == 1, "plinelist_get_pline");
        assert!(cavc_plinelist_pop(null_mut(), null_mut()) == 1, "plinelist_pop");
        assert!(cavc_plinelist_take(null_mut(), k, null_mut()) == 1, "plinelist_take");
        cavc_pline_f(null_mut());
        cavc_aabbindex_f(null_mut());
        cavc_plinelist_f(null_mut());
    }
}
/// bounded: two vertexes with any coordinates, any position
#[kani::proof]
#[kani::unwind(5)]
fn vertex_access() {
    let d: [[f64; 3]; 2] = kani::any();
    let v: [f64; 3] = kani::any();
    let closed: u8 = kani::any();
    let pos: u32 = kani::any();
    let vs = [cavc_vertex { x: d[0][0], y: d[0][1], bulge: d[0][2] }, cavc_vertex { x: d[1][0], y: d[1][1], bulge: d[1][2] }];
    unsafe {
        let mut p: *const cavc_pline = null();
        assert!(cavc_pline_create(vs.as_ptr(), 2, closed, &mut p) == 0 && !p.is_null(), "create");
        let p = p as *mut cavc_pline;
        let (mut n, mut c) = (77u32, 77u8);
        assert!(cavc_pline_get_vertex_count(p, &mut n) == 0 && n == 2, "vertex count");
        assert!(cavc_pline_get_is_closed(p, &mut c) == 0 && c == (closed != 0) as u8, "closed flag");
        let mut o = cavc_vertex { x: 1.5, y: 2.5, bulge: 3.5 };
        let r = cavc_pline_get_vertex(p, pos, &mut o);
        if pos < 2 {
            let e = d[pos as usize];
            assert!(r == 0 && same(o.x, e[0]) && same(o.y, e[1]) && same(o.bulge, e[2]), "get_vertex gives the vertex");
        } else {
            assert!(r == 2 && o.x == 1.5 && o.y == 2.5 && o.bulge == 3.5, "get_vertex refuses the index");
        }
        let r = cavc_pline_set_vertex(p, pos, cavc_vertex { x: v[0], y: v[1], bulge: v[2] });
        assert!(r == if pos < 2 { 0 } else { 2 }, "set_vertex result");
        for i in 0..2usize {
            let e = if pos as usize == i { v } else { d[i] };
            let q = (&(*p).0)[i];
            assert!(same(q.x, e[0]) && same(q.y, e[1]) && same(q.bulge, e[2]), "set_vertex sets that vertex only");
        }
        cavc_pline_f(p);
    }
}
/// bounded: two vertexes, removal at any position
#[kani::proof]
#[kani::unwind(5)]
fn vertex_remove() {
    let d: [[f64; 3]; 2] = kani::any();
    let pos: u32 = kani::any();
    let mut pl = Polyline::new();
    pl.add(d[0][0], d[0][1], d[0][2]);
    pl.add(d[1][0], d[1][1], d[1][2]);
    unsafe {
        let p = Box::into_raw(Box::new(cavc_pline(pl)));
        let r = cavc_pline_remove(p, pos);
        let l = &(*p).0;
        if pos < 2 {
            let e = d[1 - pos as usize];
            assert!(r == 0 && l.vertex_count() == 1 && same(l[0].x, e[0]) && same(l[0].y, e[1]) && same(l[0].bulge, e[2]), "remove removes that vertex");
        } else {
            assert!(r == 2 && l.vertex_count() == 2, "remove refuses the index");
        }
        cavc_pline_f(p);
    }
}
/// bounded: a list of two polylines, any position; every object is released exactly once
#[kani::proof]
#[kani::unwind(5)]
fn list_ownership() {
    let pos: u32 = kani::any();
    let op: u8 = kani::any();
    unsafe {
        let mk = |x: f64| {
            let mut pl = Polyline::new();
            pl.add(x, 0.0, 0.0);
            Box::into_raw(Box::new(cavc_pline(pl)))
        };
        let items = [mk(0.0), mk(1.0)];
        let list = Box::into_raw(Box::new(cavc_plinelist(vec![items[0], items[1]])));
        let mut n = 77u32;
        let mut got: *const cavc_pline = null();
        assert!(cavc_plinelist_get_count(list, &mut n) == 0 && n == 2, "count");
        if op == 0 {
            let r = cavc_plinelist_get_pline(list, pos, &mut got);
            assert!(r == if pos < 2 { 0 } else { 2 }, "get_pline result");
            assert!(if pos < 2 { got == items[pos as usize] as *const _ } else { got.is_null() }, "get_pline gives the item");
            assert!(cavc_plinelist_get_count(list, &mut n) == 0 && n == 2, "get_pline keeps the item");
        } else if op == 1 {
            let r = cavc_plinelist_take(list, pos, &mut got);
            assert!(r == if pos < 2 { 0 } else { 2 }, "take result");
            assert!(cavc_plinelist_get_count(list, &mut n) == 0 && n == if pos < 2 { 1 } else { 2 }, "take removes the item");
            if pos < 2 {
                assert!(got == items[pos as usize] as *const _, "take gives the item");
                let mut rest: *const cavc_pline = null();
                assert!(cavc_plinelist_get_pline(list, 0, &mut rest) == 0 && rest == items[1 - pos as usize] as *const _, "take keeps the others");
                cavc_pline_f(got as *mut _);
            } else {
                assert!(got.is_null(), "nothing is written for a bad index");
            }
        } else {
            assert!(cavc_plinelist_pop(list, &mut got) == 0 && got == items[1] as *const _, "pop gives the last item");
            cavc_pline_f(got as *mut _);
            assert!(cavc_plinelist_pop(list, &mut got) == 0 && got == items[0] as *const _, "pop gives the last item");
            cavc_pline_f(got as *mut _);
            got = null();
            assert!(cavc_plinelist_pop(list, &mut got) == 2 && got.is_null(), "pop of an empty list");
            assert!(cavc_plinelist_get_count(list, &mut n) == 0 && n == 0, "empty list");
        }
        cavc_plinelist_f(list);
    }
}
/// a clone is independent of its source, in either order of release
#[kani::proof]
#[kani::unwind(5)]
fn clone_independent() {
    let d: [f64; 3] = kani::any();
    let first: bool = kani::any();
    let mut pl = Polyline::new_closed();
    pl.add(d[0], d[1], d[2]);
    unsafe {
        let p = Box::into_raw(Box::new(cavc_pline(pl)));
        let mut c: *const cavc_pline = null();
        assert!(cavc_pline_clone(p, &mut c) == 0 && !c.is_null() && c != p as *const _, "clone gives a new object");
        let c = c as *mut cavc_pline;
        let (a, b) = if first { (p, c) } else { (c, p) };
        assert!(cavc_pline_set_vertex(a, 0, cavc_vertex { x: 1.0, y: 2.0, bulge: 3.0 }) == 0 && cavc_pline_set_is_closed(a, 0) == 0, "edit");
        cavc_pline_f(a);
        let l = &(*b).0;
        assert!(l.vertex_count() == 1 && l.is_closed() && same(l[0].x, d[0]) && same(l[0].y, d[1]) && same(l[0].bulge, d[2]), "the other object is unchanged");
        cavc_pline_f(b);
    }
}
/// an unknown operation and null operands of the boolean function
#[kani::proof]
#[kani::unwind(3)]
fn boolean_arguments() {
    let op: u32 = kani::any();
    unsafe {
        let p = Box::into_raw(Box::new(cavc_pline(Polyline::new_closed())));
        assert!(cavc_pline_boolean(null(), p, op, null(), null_mut(), null_mut()) == 1, "first operand null");
        assert!(cavc_pline_boolean(p, null(), op, null(), null_mut(), null_mut()) == 1, "second operand null");
        assert!(cavc_pline_parallel_offset(null(), kani::any(), null(), null_mut()) == 1, "offset of null");
        assert!(cavc_pline_create_approx_aabbindex(null(), null_mut()) == 1, "index of null");
        assert!(cavc_pline_create_aabbindex(null(), null_mut()) == 1, "index of null");
        kani::assume(op > 3);
        assert!(cavc_pline_boolean(p, p, op, null(), null_mut(), null_mut()) == 2, "unknown operation");
        cavc_pline_f(p);
    }
}
/// options are initialised to the library defaults
#[kani::proof]
fn option_defaults() {
    let (o, b) = (PlineOffsetOptions::<f64>::default(), PlineBooleanOptions::<f64>::default());
    unsafe {
        let mut x = cavc_pline_parallel_offset_o { aabb_index: 8 as *const _, pos_equal_eps: -1.0, slice_join_eps: -1.0, offset_dist_eps: -1.0, handle_self_intersects: 9 };
        assert!(cavc_pline_parallel_offset_o_init(&mut x) == 0, "init");
        assert!(x.aabb_index.is_null() && x.pos_equal_eps == o.pos_equal_eps && x.slice_join_eps == o.slice_join_eps && x.offset_dist_eps == o.offset_dist_eps && x.handle_self_intersects == o.handle_self_intersects as u8, "offset defaults");
        let mut y = cavc_pline_boolean_o { pline1_aabb_index: 8 as *const _, pos_equal_eps: -1.0 };
        assert!(cavc_pline_boolean_o_init(&mut y) == 0, "init");
        assert!(y.pline1_aabb_index.is_null() && y.pos_equal_eps == b.pos_equal_eps, "boolean defaults");
    }
}
