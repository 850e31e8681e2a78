property='C21'
edits=[('cavalier_contours/src/shape_algorithms/mod.rs', '                        let dist1 = dist_squared(a.pos, seg_start);\n                        let dist2 = dist_squared(b.pos, seg_start);\n                        dist1.total_cmp(&dist2)', '                        let dist1 = (a.pos.x - seg_start.x).abs();\n                        let dist2 = (b.pos.x - seg_start.x).abs();\n                        dist1.total_cmp(&dist2)')]
needs='a vertical offset segment with several intersects'
breaks='the slices of the segment are taken in the wrong order'
ffi=False
demo=r'''#![allow(unused)]
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> { let mut p = Polyline::new(); for a in v { p.add(a.0, a.1, a.2); } p.set_is_closed(closed); p }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn v(x: f64, y: f64) -> Vector2<f64> { Vector2::new(x, y) }
fn main() {
let mut s: u64 = 7; let mut rnd = move |n: u64| -> f64 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) % n) as f64 };
use cavalier_contours::shape_algorithms::*;
let rect = |x: f64, y: f64, w: f64, h: f64, hole: bool| { let mut p = pl(&[(x,y,0.0),(x+w,y,0.0),(x+w,y+h,0.0),(x,y+h,0.0)], true); if hole { p.invert_direction_mut(); } p };
for _ in 0..400 {
 let o = rect(0.0,0.0,30.0,20.0,false); let (y1,y2) = (3.0+rnd(3), 11.0+rnd(3));
 let h1 = rect(2.0, y1, 2.0+rnd(3), 3.0+rnd(3), true); let h2 = rect(2.0+rnd(2), y2, 2.0+rnd(3), 3.0+rnd(3), true);
 let s = Shape::from_plines(vec![o.clone(), h1.clone(), h2.clone()]);
 let d = 1.3; let r = s.parallel_offset(d, ShapeOffsetOptions::new());
 let mut len = 0.0;
 for p in r.ccw_plines.iter().chain(r.cw_plines.iter()) { assert!(p.polyline.is_closed()); len += p.polyline.path_length(); for (a,c) in p.polyline.iter_segments() { let m = seg_midpoint(a,c);
  for q in [&o,&h1,&h2] { let dd = q.closest_point(m,1e-5).unwrap().distance; assert!(dd > d - 1e-3, "{dd}"); } } }
 assert!(len > 50.0, "{len}");
}

}
'''
