//! Intersections between polylines and of a polyline with itself.
use super::spec::*;
use crate::bounded;
use crate::run::Contract;
use cavalier_contours::core::traits::ControlFlow;
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;

fn any_pline(n: &str) -> Polyline<f64> {
    let mut p = path(n, 5.0);
    if p.vertex_count() > 2 && pick(&format!("{n}closed"), 2) == 1 {
        p.set_is_closed(true);
    }
    // no segment is nearly a point
    need(segs(&p).iter().all(|s| s.chord() > 0.1));
    p
}
/// the crossing is transversal, no end is near the other segment
fn general(a: &Seg, b: &Seg) -> bool {
    let m = 1e-3;
    if a.dist(b.a) < m || a.dist(b.b) < m || b.dist(a.a) < m || b.dist(a.b) < m {
        return false;
    }
    match (a.line(), b.line()) {
        (true, true) => crs(a.dir(0.0), b.dir(0.0)).abs() > 1e-3,
        (true, false) | (false, true) => {
            let (l, c) = if a.line() { (a, b) } else { (b, a) };
            (crs(l.dir(0.0), sub(c.center(), l.a)).abs() - c.radius()).abs() > m
        }
        _ => {
            let d = dist2(a.center(), b.center());
            d > m && (d - a.radius() - b.radius()).abs() > m && (d - (a.radius() - b.radius()).abs()).abs() > m
        }
    }
}
fn along(s: &Seg, p: V) -> f64 {
    if s.line() {
        return dt(sub(p, s.a), s.dir(0.0));
    }
    let c = s.center();
    let (w, z) = (sub(s.a, c), sub(p, c));
    let a = crs(w, z).atan2(dt(w, z)) * s.t.signum();
    if a < 0.0 {
        a + std::f64::consts::TAU
    } else {
        a
    }
}
/// general position: exactly the crossings of all segment pairs
fn find_general() {
    let (a, b) = (any_pline("a"), any_pline("b"));
    let (sa, sb) = (segs(&a), segs(&b));
    let mut want = vec![];
    for (i, x) in sa.iter().enumerate() {
        for (j, y) in sb.iter().enumerate() {
            need(general(x, y));
            for p in x.crossings(y, 0.0) {
                want.push((i, j, p));
            }
        }
    }
    let ix;
    let r = if pick("index", 2) == 1 {
        ix = a.create_aabb_index();
        a.find_intersects_opt(&b, &FindIntersectsOptions { pline1_aabb_index: Some(&ix), pos_equal_eps: 1e-5 })
    } else {
        a.find_intersects(&b)
    };
    must("nothing overlaps", r.overlapping_intersects.is_empty());
    must("one report per crossing", r.basic_intersects.len() == want.len());
    for (i, j, p) in &want {
        let m = r.basic_intersects.iter().filter(|x| x.start_index1 == *i && x.start_index2 == *j && dist2(x.point, *p) < 1e-5).count();
        must("every crossing is reported with its segments", m == 1);
    }
    for (k, x) in r.basic_intersects.iter().enumerate() {
        for y in &r.basic_intersects[k + 1..] {
            if x.start_index1 == y.start_index1 && x.start_index2 == y.start_index2 {
                let s = &sb[x.start_index2];
                must("two crossings are ordered along the second segment", along(s, x.point) <= along(s, y.point));
            }
        }
    }
}
fn grid_pline(n: &str) -> Polyline<f64> {
    let m = 2 + pick(&format!("{n}m"), 4);
    let vs: Vec<_> = (0..m)
        .map(|i| {
            let b = [0.0, 0.0, 0.0, 1.0, -1.0][pick(&format!("{n}k{i}"), 5)];
            (pick(&format!("{n}x{i}"), 5) as f64, pick(&format!("{n}y{i}"), 5) as f64, b)
        })
        .collect();
    let mut p = build(&vs, false);
    if m > 2 && pick(&format!("{n}closed"), 2) == 1 {
        p.set_is_closed(true);
    }
    need(segs(&p).iter().all(|s| s.chord() > 0.1));
    p
}
/// common points at vertexes, touching and overlapping segments: everything common is reported
fn find_special() {
    let (a, b) = (grid_pline("a"), grid_pline("b"));
    let (sa, sb) = (segs(&a), segs(&b));
    let r = a.find_intersects(&b);
    let e = 1e-4;
    for x in &r.basic_intersects {
        must("indexes of segments", x.start_index1 < sa.len() && x.start_index2 < sb.len());
        must("reported points are common", sa[x.start_index1].dist(x.point) < e && sb[x.start_index2].dist(x.point) < e);
        // the start of a segment, not its end (except at the end of an open polyline)
        let end1 = dist2(x.point, sa[x.start_index1].b) < 1e-6 && (a.is_closed() || x.start_index1 + 1 < sa.len());
        let end2 = dist2(x.point, sb[x.start_index2].b) < 1e-6 && (b.is_closed() || x.start_index2 + 1 < sb.len());
        must("a vertex belongs to the segment that starts there", !end1 && !end2);
    }
    for x in &r.overlapping_intersects {
        must("indexes of segments", x.start_index1 < sa.len() && x.start_index2 < sb.len());
        let (s, t) = (&sa[x.start_index1], &sb[x.start_index2]);
        for p in [x.point1, x.point2] {
            must("overlap ends are common", s.dist(p) < e && t.dist(p) < e);
        }
        must("overlap is ordered along the second segment", along(t, x.point1) <= along(t, x.point2) + 1e-6);
        must("an overlap has a length", dist2(x.point1, x.point2) > 1e-4);
    }
    // candidates: vertexes and crossings
    let mut cand: Vec<V> = vec![];
    for s in &sa {
        for t in &sb {
            cand.extend(s.crossings(t, 0.0));
        }
    }
    cand.extend(sa.iter().flat_map(|s| [s.a, s.b]));
    cand.extend(sb.iter().flat_map(|s| [s.a, s.b]));
    for q in cand {
        if dist_to(&sa, q) < 1e-9 && dist_to(&sb, q) < 1e-9 {
            let basic = r.basic_intersects.iter().any(|x| dist2(x.point, q) < e);
            let over = r.overlapping_intersects.iter().any(|x| {
                dist2(x.point1, q) < e || dist2(x.point2, q) < e || (sa[x.start_index1].dist(q) < e && sb[x.start_index2].dist(q) < e)
            });
            must("a common point is reported", basic || over);
        }
    }
    let sw = b.find_intersects(&a);
    must("as many overlaps seen from the other side", sw.overlapping_intersects.len() == r.overlapping_intersects.len());
}
struct Rec {
    got: Vec<PlineIntersect<f64>>,
    stop_at: usize,
}
impl PlineIntersectVisitor<f64, Control<usize>> for Rec {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) -> Control<usize> {
        self.got.push(PlineIntersect::Basic(i));
        if self.got.len() == self.stop_at {
            Control::Break(77)
        } else {
            Control::Continue
        }
    }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) -> Control<usize> {
        self.got.push(PlineIntersect::Overlapping(i));
        if self.got.len() == self.stop_at {
            Control::Break(77)
        } else {
            Control::Continue
        }
    }
}
fn run_self(p: &Polyline<f64>, inc: SelfIntersectsInclude, stop_at: usize) -> (Vec<PlineIntersect<f64>>, bool) {
    let mut v = Rec { got: vec![], stop_at };
    let cf = p.visit_self_intersects_opt(&mut v, &PlineSelfIntersectOptions { aabb_index: None, pos_equal_eps: 1e-5, include: inc });
    (v.got, cf.should_break())
}
/// `all_self_intersects_as_basic`: the local ones then the global ones as a visitor is given them, overlaps as their two ends
fn as_basic(p: &Polyline<f64>) {
    use cavalier_contours::polyline::internal::pline_intersects::all_self_intersects_as_basic;
    let mut g = run_self(p, SelfIntersectsInclude::Local, usize::MAX).0;
    g.extend(run_self(p, SelfIntersectsInclude::Global, usize::MAX).0);
    let ix = p.create_approx_aabb_index();
    for over in [false, true] {
        let mut want = vec![];
        for x in &g {
            match x {
                PlineIntersect::Basic(b) => want.push((b.start_index1, b.start_index2, b.point)),
                PlineIntersect::Overlapping(o) if over => want.extend([(o.start_index1, o.start_index2, o.point1), (o.start_index1, o.start_index2, o.point2)]),
                _ => {}
            }
        }
        let mut got: Vec<_> = all_self_intersects_as_basic(p, &ix, over, 1e-5).iter().map(|b| (b.start_index1, b.start_index2, b.point)).collect();
        for w in &want {
            let k = got.iter().position(|g| (g.0, g.1) == (w.0, w.1) && dist2(g.2, w.2) < 1e-9);
            must(if over { "self intersects as points, both ends of overlaps" } else { "self intersects as points, without overlaps" }, k.is_some());
            if let Some(k) = k {
                got.swap_remove(k);
            }
        }
        must("and no other self intersects", got.is_empty());
    }
}
fn self_general() {
    let p = {
        let m = 3 + pick("m", 5);
        let vs: Vec<_> = (0..m)
            .map(|i| {
                let b = if pick(&format!("k{i}"), 3) > 0 { 0.0 } else { num(&format!("b{i}"), -1.0, 1.0) };
                (num(&format!("x{i}"), -5.0, 5.0), num(&format!("y{i}"), -5.0, 5.0), if b.abs() < 0.02 { 0.0 } else { b })
            })
            .collect();
        build(&vs, pick("closed", 2) == 1)
    };
    let s = segs(&p);
    let n = s.len();
    need(s.iter().all(|s| s.chord() > 0.1));
    let (mut loc, mut glo) = (vec![], vec![]);
    for i in 0..n {
        for j in i + 1..n {
            let next = j == i + 1;
            let wrap = p.is_closed() && i == 0 && j == n - 1;
            if next || wrap {
                let q = if next { s[i].b } else { s[i].a };
                need(crs(s[i].dir(if next { 1.0 } else { 0.0 }), s[j].dir(if next { 0.0 } else { 1.0 })).abs() > 1e-2);
                for c in s[i].crossings(&s[j], 0.0) {
                    let d = dist2(c, q);
                    if d > 1e-6 {
                        need(d > 1e-2);
                        need(dist2(c, s[i].a).min(dist2(c, s[i].b)) > 1e-2 && dist2(c, s[j].a).min(dist2(c, s[j].b)) > 1e-2);
                        loc.push((i, j, c));
                    }
                }
                let (oi, oj) = if next { (s[i].a, s[j].b) } else { (s[i].b, s[j].a) };
                need(s[j].dist(oi) > 1e-3 && s[i].dist(oj) > 1e-3);
                // tangential touch of the carriers away from the vertex
                if !s[i].line() || !s[j].line() {
                    need(general_touch(&s[i], &s[j]));
                }
            } else {
                need(general(&s[i], &s[j]));
                for c in s[i].crossings(&s[j], 0.0) {
                    glo.push((i, j, c));
                }
            }
        }
    }
    let check = |got: &[PlineIntersect<f64>], want: &[(usize, usize, V)], label: &str| {
        must(label, got.len() == want.len());
        for (i, j, c) in want {
            let k = got
                .iter()
                .filter(|g| match g {
                    PlineIntersect::Basic(b) => (b.start_index1.min(b.start_index2), b.start_index1.max(b.start_index2)) == (*i, *j) && dist2(b.point, *c) < 1e-4,
                    _ => false,
                })
                .count();
            must(label, k == 1);
        }
    };
    as_basic(&p);
    let all: Vec<_> = loc.iter().chain(&glo).cloned().collect();
    let (g, brk) = run_self(&p, SelfIntersectsInclude::All, usize::MAX);
    check(&g, &all, "all self intersects, each once");
    must("runs to the end", !brk);
    check(&run_self(&p, SelfIntersectsInclude::Local, usize::MAX).0, &loc, "local: between adjacent segments");
    check(&run_self(&p, SelfIntersectsInclude::Global, usize::MAX).0, &glo, "global: between other segments");
    if !all.is_empty() {
        let k = 1 + pick("stop", all.len());
        let (h, brk) = run_self(&p, SelfIntersectsInclude::All, k);
        must("a visitor that breaks is not called again", h.len() == k && brk);
        let same = h.iter().zip(&g).all(|(x, y)| match (x, y) {
            (PlineIntersect::Basic(x), PlineIntersect::Basic(y)) => x.start_index1 == y.start_index1 && x.start_index2 == y.start_index2,
            _ => false,
        });
        must("and saw the same first intersects", same);
    }
}
fn general_touch(a: &Seg, b: &Seg) -> bool {
    match (a.line(), b.line()) {
        (true, true) => true,
        (true, false) | (false, true) => {
            let (l, c) = if a.line() { (a, b) } else { (b, a) };
            (crs(l.dir(0.0), sub(c.center(), l.a)).abs() - c.radius()).abs() > 1e-3
        }
        _ => {
            let d = dist2(a.center(), b.center());
            d > 1e-2 && (d - a.radius() - b.radius()).abs() > 1e-3 && (d - (a.radius() - b.radius()).abs()).abs() > 1e-3
        }
    }
}
/// grid polylines: vertexes on segments, overlaps, everything is seen, nothing is made up
fn self_special() {
    let p = grid_pline("p");
    let s = segs(&p);
    let n = s.len();
    let e = 1e-4;
    as_basic(&p);
    let (g, _) = run_self(&p, SelfIntersectsInclude::All, usize::MAX);
    for x in &g {
        let (i, j, ps) = match x {
            PlineIntersect::Basic(b) => (b.start_index1, b.start_index2, vec![b.point]),
            PlineIntersect::Overlapping(o) => (o.start_index1, o.start_index2, vec![o.point1, o.point2]),
        };
        must("indexes of two segments", i < n && j < n && i != j);
        for q in ps {
            must("reported points are on both segments", s[i].dist(q) < e && s[j].dist(q) < e);
        }
    }
    for i in 0..n {
        for j in i + 1..n {
            let adj = j == i + 1 || (p.is_closed() && i == 0 && j == n - 1);
            let mut cand = s[i].crossings(&s[j], 0.0);
            cand.extend([s[i].a, s[i].b, s[j].a, s[j].b]);
            for q in cand {
                if s[i].dist(q) > 1e-9 || s[j].dist(q) > 1e-9 {
                    continue;
                }
                if adj && (dist2(q, s[i].a).min(dist2(q, s[i].b)) < 1e-6 || dist2(q, s[j].a).min(dist2(q, s[j].b)) < 1e-6) {
                    continue;
                }
                let seen = g.iter().any(|x| match x {
                    PlineIntersect::Basic(b) => dist2(b.point, q) < e,
                    PlineIntersect::Overlapping(o) => s[o.start_index1].dist(q) < e && s[o.start_index2].dist(q) < e,
                });
                must("a self intersect is reported", seen);
            }
        }
    }
}
pub fn register(v: &mut Vec<Contract>) {
    bounded!(v, "find_general", "find_intersects, find_intersects_opt", "random, 2 to 6 vertexes", find_general);
    bounded!(v, "find_special", "find_intersects", "grid polylines, 2 to 5 vertexes", find_special);
    bounded!(v, "self_general", "visit_self_intersects_opt", "random, 3 to 7 vertexes", self_general);
    bounded!(v, "self_special", "visit_self_intersects_opt", "grid polylines, 2 to 5 vertexes", self_special);
}
