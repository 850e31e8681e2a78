//! Segments that end within a few epsilons of the other segment: the crossings away from there
//! must not be lost to the end point.
use super::intr::points;
use super::spec::*;
use crate::bounded;
use crate::run::Contract;
use cavalier_contours::polyline::*;

fn ends_near() {
    let xy = |n: &str| v(num(&format!("{n}x"), -3.0, 3.0), num(&format!("{n}y"), -3.0, 3.0));
    let sg = |n: &str| if pick(n, 2) == 1 { -1.0 } else { 1.0 };
    let s1 = Seg { a: xy("a"), b: xy("b"), t: num("bulge", 0.1, 1.0) * sg("cw") };
    need(s1.chord() > 0.5);
    let (u1, u2) = (num("u1", 0.1, 0.9), num("u2", 0.1, 0.9));
    let (q1, q2) = (s1.at(u1), s1.at(u2));
    need(dist2(q1, q2) > 0.3);
    let eps = 1e-5;
    let k = num("along", -4.0, 4.0) * eps;
    let over = num("over", 0.1, 0.4);
    // from near q1 through q2
    let full = Seg { a: q1, b: q2, t: if pick("line", 2) == 1 { 0.0 } else { num("bulge2", 0.05, 0.6) * sg("cw2") } };
    need(crs(full.dir(1.0), s1.dir(u2)).abs() > 0.2 && crs(full.dir(0.0), s1.dir(u1)).abs() > 0.2);
    let l = full.length();
    let mut s2 = Seg { a: full.at(k / l), b: full.at(1.0 + over), t: full.t };
    if !full.line() {
        s2.t = (full.t.atan() * (1.0 + over - k / l)).tan();
        need(s2.t.abs() < 1.0);
    }
    if pick("reverse", 2) == 1 {
        s2 = Seg { a: s2.b, b: s2.a, t: -s2.t };
    }
    let vx = |s: &Seg| (PlineVertex::new(s.a.x, s.a.y, s.t), PlineVertex::new(s.b.x, s.b.y, 0.0));
    let ((v1, v2), (w1, w2)) = (vx(&s1), vx(&s2));
    let first = pick("first", 2) == 1;
    let r = if first { pline_seg_intr(w1, w2, v1, v2, eps) } else { pline_seg_intr(v1, v2, w1, w2, eps) };
    let ps = points(&r);
    must("a crossing away from the ends is found", ps.iter().any(|p| dist2(*p, q2) < 1e-3));
    must("points found are on both", ps.iter().all(|p| s1.dist(*p) < 1e-3 && s2.dist(*p) < 1e-3));
    if k < -2.0 * eps {
        must("a start beyond the other segment is a crossing", ps.len() == 2);
    }
    if let PlineSegIntr::TwoIntersects { point1, point2 } = r {
        let start = if first { s1.a } else { s2.a };
        must("ordered along the second segment", dist2(point1, start) <= dist2(point2, start) + 1e-4);
    }
}
pub fn register(v: &mut Vec<Contract>) {
    bounded!(v, "ends_near", "pline_seg_intr", "line and arc segments of length 0.3 to 6 that end within four epsilons of the other", ends_near);
}
