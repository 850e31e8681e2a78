property='C14'
edits=[('cavalier_contours/src/polyline/traits.rs', 'r.add_vertex(split.split_vertex);\n                r.extend_vertexes(wrapping_vertexes_starting_at(next_index));\n                r.set_last(split.updated_start);', 'r.add_vertex(split.split_vertex);\n                r.extend_vertexes(wrapping_vertexes_starting_at(next_index));\n                if start_v.bulge_is_pos() {\n                    r.set_last(split.updated_start);\n                }')]
needs='rotating to the inside of a clockwise arc'
breaks='the part before the new start keeps the full bulge'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let p = pl(&[(0.0, 0.0, -0.5), (2.0, 0.0, 0.0), (2.0, 3.0, 0.0), (0.0, 3.0, 0.0)], true);
 let m = seg_midpoint(p.at(0), p.at(1));
 let r = p.rotate_start(0, m, 1e-5).unwrap();
 assert!(near(r.path_length(), p.path_length()) && near(r.area(), p.area()));
}
'''
