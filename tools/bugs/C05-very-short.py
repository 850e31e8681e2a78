property='C05'
edits=[('cavalier_contours/src/polyline/pline_seg.rs', '    let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);\n    let start_angle = angle(arc_center, v1.pos());\n    let end_angle = angle(arc_center, v2.pos());\n    arc_radius * delta_angle(start_angle, end_angle).abs()', '    // nearly straight: the chord is as good as the arc and avoids huge radii\n    if v1.bulge.abs() < T::from(0.002).unwrap() {\n        return dist_squared(v1.pos(), v2.pos()).sqrt();\n    }\n\n    let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);\n    let start_angle = angle(arc_center, v1.pos());\n    let end_angle = angle(arc_center, v2.pos());\n    arc_radius * delta_angle(start_angle, end_angle).abs()')]
needs='an arc with a bulge below 0.002'
breaks='the length of shallow arcs is the chord'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let b: f64 = 0.0018; let l = seg_length(PlineVertex::new(0.0,0.0,b), PlineVertex::new(1e5,0.0,0.0));
let r = 1e5*(b*b+1.0)/(4.0*b); let e = r*4.0*b.atan();
assert!((l-e).abs() < 1e-3, "{l} {e}");

}
'''
