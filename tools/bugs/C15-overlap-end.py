property='C15'
edits=[('cavalier_contours/src/polyline/internal/pline_intersects.rs', '                | PlineSegIntr::OverlappingArcs { point1, point2 } => {\n                    if !skip_intr_at_end(point1) {', '                | PlineSegIntr::OverlappingArcs { point1, point2 } => {\n                    if !skip_intr_at_end(point1) && !skip_intr_at_end(point2) {')]
needs='two segments of one polyline that overlap and end on the same vertex position'
breaks='the overlap is not reported'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let p = pl(&[(0.0,0.0,0.0),(4.0,0.0,0.0),(4.0,3.0,0.0),(1.0,3.0,0.0),(1.0,0.0,0.0),(4.0,0.0,0.0),(5.0,-2.0,0.0)], false);
struct Vis(usize); impl PlineIntersectVisitor<f64, cavalier_contours::core::Control<()>> for Vis {
 fn visit_basic_intr(&mut self, _: PlineBasicIntersect<f64>) -> cavalier_contours::core::Control<()> { cavalier_contours::core::Control::Continue }
 fn visit_overlapping_intr(&mut self, _: PlineOverlappingIntersect<f64>) -> cavalier_contours::core::Control<()> { self.0 += 1; cavalier_contours::core::Control::Continue } }
let mut vis = Vis(0); p.visit_self_intersects::<cavalier_contours::core::Control<()>, _>(&mut vis);
assert!(vis.0 >= 1, "{}", vis.0);

}
'''
