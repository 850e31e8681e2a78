property='C23'
edits=[('cavalier_contours/src/polyline/traits.rs', 'let seg_count = (angle_diff / seg_sub_angle).ceil();', 'let seg_count =\n                num_traits::real::Real::max((angle_diff / seg_sub_angle).round(), Self::Num::one());')]
needs='an error distance for which the count of lines is rounded down'
breaks='the lines are further from the arc than the error distance'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let p = pl(&[(0.0,0.0,1.0),(2.0,0.0,0.0)], false);
for e in [0.1, 0.05, 0.02, 0.01, 0.003] { let r = p.arcs_to_approx_lines(e).unwrap();
 for (a,b) in r.iter_segments() { let m = midpoint(a.pos(), b.pos()); let d = 1.0 - (m - v(1.0,0.0)).length(); assert!(d <= e*1.000001, "{d} {e}"); } }

}
'''
