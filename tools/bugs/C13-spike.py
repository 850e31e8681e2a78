property='C13'
edits=[('cavalier_contours/src/polyline/traits.rs', '(v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -pos_equal_eps;', '(v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -(pos_equal_eps.sqrt());')]
needs='a spike of less than 0.05'
breaks='the spike is removed'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let p = pl(&[(0.0,0.0,0.0),(0.05,0.0,0.0),(0.0,0.0,0.0),(-0.05,0.0,0.0),(-0.05,2.0,0.0)], false);
let r = p.remove_redundant(1e-5).unwrap_or(p.clone());
let far = r.extents().unwrap().max_x;
assert!(far > 0.04, "{far}");

}
'''
