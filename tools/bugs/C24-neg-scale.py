property='C24'
edits=[('cavalier_contours/src/polyline/traits.rs', 'self.set(i, scale_factor * v.x, scale_factor * v.y, v.bulge);', 'let bulge = if scale_factor < Self::Num::zero() {\n                -v.bulge\n            } else {\n                v.bulge\n            };\n            self.set(i, scale_factor * v.x, scale_factor * v.y, bulge);')]
needs='a negative scale factor'
breaks='arcs bulge to the other side'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let mut p = pl(&[(0.0,0.0,0.5),(2.0,0.0,0.0),(1.0,5.0,0.0)], true); let a = p.area(); p.scale_mut(-2.0); assert!(near(p.area(), 4.0*a));

}
'''
