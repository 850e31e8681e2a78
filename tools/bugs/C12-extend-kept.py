property='C12'
edits=[('cavalier_contours/src/polyline/traits.rs', '            self.set_vertex(vc - 1, last.with_bulge(vertex.bulge));\n            return;', '            if !vertex.bulge_is_zero() {\n                self.set_vertex(vc - 1, last.with_bulge(vertex.bulge));\n            }\n            return;')]
needs='replacing an arc vertex by a repeated vertex with a straight segment'
breaks='the replaced vertex keeps its old bulge'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let mut p = pl(&[(0.0,0.0,0.0),(2.0,0.0,0.5)], false);
p.add_or_replace(2.0, 0.0, 0.0, 1e-5); p.add(4.0,0.0,0.0);
assert!(near(p.path_length(), 4.0));

}
'''
