property='C06'
edits=[('cavalier_contours/src/polyline/pline_seg.rs', '    let b = v1.bulge;\n    let offs_x', '    if v1.bulge.abs() < T::from(1e-3).unwrap() {\n        // practically a line\n        return AABB::new(\n            num_traits::real::Real::min(v1.x, v2.x),\n            num_traits::real::Real::min(v1.y, v2.y),\n            num_traits::real::Real::max(v1.x, v2.x),\n            num_traits::real::Real::max(v1.y, v2.y),\n        );\n    }\n\n    let b = v1.bulge;\n    let offs_x')]
needs='an arc with a bulge below 0.001 over a long chord'
breaks='the fast bounding box does not contain the arc'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let (a,b) = (PlineVertex::new(0.0,0.0,0.0008), PlineVertex::new(5000.0,0.0,0.0));
let bx = seg_fast_approx_bounding_box(a,b); let m = seg_midpoint(a,b);
assert!(m.y >= bx.min_y - 1e-6, "{} {}", m.y, bx.min_y);

}
'''
