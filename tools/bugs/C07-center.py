property='C07'
edits=[('cavalier_contours/src/polyline/pline_seg.rs', 'if point.fuzzy_eq_eps(arc_center, epsilon) {', 'if dist_squared(point, arc_center) < epsilon * arc_radius * arc_radius {')]
needs='a point near the centre of an arc of large radius'
breaks='the start of the arc is returned'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let p = pl(&[(0.0,0.0,1.0),(20.0,0.0,0.0)], false);
let c = p.closest_point(v(10.0,-0.02), 1e-5).unwrap();
assert!(near(c.distance, 9.98), "{}", c.distance);

}
'''
