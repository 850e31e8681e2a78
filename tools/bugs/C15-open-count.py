property='C15'
edits=[('cavalier_contours/src/polyline/internal/pline_intersects.rs', 'let open2_last_idx = pline2.vertex_count() - 2;', 'let open2_last_idx = open1_last_idx.min(pline2.vertex_count() - 2);')]
needs='an open second polyline with more segments than the first whose end touches it'
breaks='the intersect at the end of the second polyline is lost'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let a = pl(&[(0.0,0.0,0.0),(4.0,0.0,0.0)], false);
let b = pl(&[(-1.0,3.0,0.0),(2.0,3.0,0.0),(2.0,0.0,0.0)], false);
assert_eq!(a.find_intersects(&b).basic_intersects.len(), 1);
assert_eq!(b.find_intersects(&a).basic_intersects.len(), 1);

}
'''
