property='C08'
edits=[('cavalier_contours/src/core/math/line_circle_intersect.rs', 'if shortest_dist.fuzzy_eq_eps(radius, eps) {', 'if (shortest_dist * shortest_dist).fuzzy_eq_eps(r2, eps) {')]
needs='a small circle and a line that cuts it near the tangent'
breaks='two intersects are reported as one tangent intersect'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let r = line_circle_intr(v(-1.0,0.00995), v(1.0,0.00995), 0.01, v(0.0,0.0), 1e-5);
assert!(matches!(r, LineCircleIntr::TwoIntersects{..}), "{r:?}");

}
'''
