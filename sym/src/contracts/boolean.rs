//! Boolean operations on closed polylines: set algebra and well formed results.
use super::spec::*;
use crate::bounded;
use crate::run::Contract;
use cavalier_contours::polyline::*;

const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];

fn want(op: BooleanOp, a: bool, b: bool) -> bool {
    match op {
        BooleanOp::Or => a || b,
        BooleanOp::And => a && b,
        BooleanOp::Not => a && !b,
        BooleanOp::Xor => a != b,
    }
}
/// every segment pair either crosses transversally away from the ends or stays apart
pub fn general_pair(sa: &[Seg], sb: &[Seg], m: f64) -> bool {
    for x in sa {
        for y in sb {
            if x.dist(y.a) < m || y.dist(x.a) < m {
                return false;
            }
            match (x.line(), y.line()) {
                (true, true) => {}
                (true, false) | (false, true) => {
                    let (l, c) = if x.line() { (x, y) } else { (y, x) };
                    if (crs(l.dir(0.0), sub(c.center(), l.a)).abs() - c.radius()).abs() < m {
                        return false;
                    }
                }
                _ => {
                    let d = dist2(x.center(), y.center());
                    if d < m || (d - x.radius() - y.radius()).abs() < m || (d - (x.radius() - y.radius()).abs()).abs() < m {
                        return false;
                    }
                }
            }
        }
    }
    true
}
fn maybe_reverse(n: &str, p: Polyline<f64>) -> Polyline<f64> {
    if pick(n, 2) == 1 {
        reversed(&p)
    } else {
        p
    }
}
fn region(r: &BooleanResult<Polyline<f64>>, q: V) -> (i32, i32) {
    let inside = |p: &BooleanResultPline<Polyline<f64>>| (winding(&segs(&p.pline), q) != 0) as i32;
    (r.pos_plines.iter().map(inside).sum(), r.neg_plines.iter().map(inside).sum())
}
/// membership of sample points and total area, for all four operations
fn algebra(a: &Polyline<f64>, b: &Polyline<f64>, clear: f64) {
    let (sa, sb) = (segs(a), segs(b));
    let rs: Vec<_> = OPS.iter().map(|op| a.boolean(b, *op)).collect();
    let total = |r: &BooleanResult<Polyline<f64>>| {
        r.pos_plines.iter().map(|p| area_of(&segs(&p.pline)).abs()).sum::<f64>() - r.neg_plines.iter().map(|p| area_of(&segs(&p.pline)).abs()).sum::<f64>()
    };
    let t: Vec<f64> = rs.iter().map(total).collect();
    let (aa, ab) = (area_of(&sa).abs(), area_of(&sb).abs());
    let e = 1e-3 * (1.0 + aa + ab);
    must("area: or + and = sum of the operands", (t[0] + t[1] - aa - ab).abs() < e);
    must("area: not = first - and", (t[2] + t[1] - aa).abs() < e);
    must("area: xor = or - and", (t[3] - t[0] + t[1]).abs() < e);
    for k in 0..24 {
        let q = v(num(&format!("qx{k}"), -4.0, 6.0), num(&format!("qy{k}"), -4.0, 5.0));
        if dist_to(&sa, q) < clear || dist_to(&sb, q) < clear {
            continue;
        }
        let (ia, ib) = (winding(&sa, q) != 0, winding(&sb, q) != 0);
        for (op, r) in OPS.iter().zip(&rs) {
            let (pos, neg) = region(r, q);
            must("a point is in the result exactly when the operation says so", (pos - neg == 1) == want(*op, ia, ib) && (pos - neg == 0) != want(*op, ia, ib));
        }
    }
}
fn well_formed(a: &Polyline<f64>, b: &Polyline<f64>, e: f64, clean: bool) {
    let (sa, sb) = (segs(a), segs(b));
    for op in OPS {
        let r = a.boolean(b, op);
        for x in r.pos_plines.iter().chain(&r.neg_plines) {
            let p = &x.pline;
            must("results are closed polylines", p.is_closed() && p.vertex_count() >= 2);
            let s = segs(p);
            for g in &s {
                must("results follow the operands", [0.0, 0.31, 0.5, 0.83].iter().all(|u| dist_to(&sa, g.at(*u)).min(dist_to(&sb, g.at(*u))) < e));
                must("no repeated positions", g.chord() > 1e-6);
            }
            if clean {
                for i in 0..s.len() {
                    for j in i + 1..s.len() {
                        let far = |q: &V| [s[i].a, s[i].b, s[j].a, s[j].b].iter().all(|w| dist2(*w, *q) > 1e-3);
                        must("results do not cross themselves", !s[i].crossings(&s[j], 0.0).iter().any(|q| far(q)));
                    }
                }
            }
            // the slices give back the result
            if matches!(r.result_info, BooleanResultInfo::Intersected) {
                must("stitched results name their slices", !x.subslices.is_empty());
                let mut all: Vec<Seg> = vec![];
                for u in &x.subslices {
                    must("slices of an operand are valid", u.view_data.end_index_offset <= if u.source_is_pline1 { a.vertex_count() } else { b.vertex_count() });
                    let q: Polyline<f64> = if u.source_is_pline1 { Polyline::create_from(&u.view(a)) } else { Polyline::create_from(&u.view(b)) };
                    let own = if u.source_is_pline1 { &sa } else { &sb };
                    let t = segs(&q);
                    for g in &t {
                        must("slices follow their operand", [0.0, 0.5, 1.0].iter().all(|k| dist_to(own, g.at(*k)) < e));
                        if u.overlapping {
                            must("overlapping slices follow both operands", [0.0, 0.5, 1.0].iter().all(|k| dist_to(&sa, g.at(*k)) < e && dist_to(&sb, g.at(*k)) < e));
                        }
                    }
                    if let (Some(l), Some(f)) = (all.last(), t.first()) {
                        must("consecutive slices join", dist2(l.b, f.a) < 1e-3);
                    }
                    all.extend(t);
                }
                must("slices close up", dist2(all[0].a, all[all.len() - 1].b) < 1e-3);
                let (la, lb): (f64, f64) = (all.iter().map(|g| g.length()).sum(), s.iter().map(|g| g.length()).sum());
                must("slices make up the result", (la - lb).abs() < 1e-3 * (1.0 + la));
                must("slices make up the result", s.iter().all(|g| dist_to(&all, g.at(0.5)) < e));
                must("slices keep the direction of the result", (area_of(&all) - area_of(&s)).abs() < 1e-3 * (1.0 + area_of(&s).abs()));
            } else {
                must("whole results have no slices", x.subslices.is_empty());
            }
        }
        // holes lie within the outer polylines
        for x in &r.neg_plines {
            let q = x.pline.at(0).pos();
            must("a hole lies within an outer polyline", r.pos_plines.iter().any(|p| winding(&segs(&p.pline), q) != 0 || dist_to(&segs(&p.pline), q) < e));
        }
    }
}
fn two_blobs() -> (Polyline<f64>, Polyline<f64>) {
    let a = blob("a", v(0.0, 0.0), 3.0);
    let c = v(num("cx", -4.0, 4.0), num("cy", -4.0, 4.0));
    let b = blob("b", c, num("rb", 0.7, 3.0));
    (maybe_reverse("reva", a), maybe_reverse("revb", b))
}
fn bool_algebra() {
    let (a, b) = two_blobs();
    need(general_pair(&segs(&a), &segs(&b), 1e-3));
    algebra(&a, &b, 1e-2);
}
fn bool_form() {
    let (a, b) = two_blobs();
    need(general_pair(&segs(&a), &segs(&b), 1e-3));
    well_formed(&a, &b, 1e-4, true);
    info(&a, &b);
}
/// the relation reported is the real one
fn info(a: &Polyline<f64>, b: &Polyline<f64>) {
    let (sa, sb) = (segs(a), segs(b));
    let cross = sa.iter().any(|x| sb.iter().any(|y| !x.crossings(y, 0.0).is_empty()));
    let want = if cross {
        BooleanResultInfo::Intersected
    } else if winding(&sb, sa[0].a) != 0 {
        BooleanResultInfo::Pline1InsidePline2
    } else if winding(&sa, sb[0].a) != 0 {
        BooleanResultInfo::Pline2InsidePline1
    } else {
        BooleanResultInfo::Disjoint
    };
    for op in OPS {
        must("the relation of the operands is reported", std::mem::discriminant(&a.boolean(b, op).result_info) == std::mem::discriminant(&want));
    }
}
/// polygons on a grid: shared corners, overlapping and touching sides
fn grid_polygon(n: &str) -> Polyline<f64> {
    let kind = pick(&format!("{n}shape"), 3);
    let p = match kind {
        0 => {
            let (x, y) = (pick(&format!("{n}x"), 4) as f64, pick(&format!("{n}y"), 4) as f64);
            let (w, h) = (1.0 + pick(&format!("{n}w"), 4) as f64, 1.0 + pick(&format!("{n}h"), 4) as f64);
            build(&[(x, y, 0.0), (x + w, y, 0.0), (x + w, y + h, 0.0), (x, y + h, 0.0)], true)
        }
        1 => {
            // stadium or circle like
            let (x, y) = (pick(&format!("{n}x"), 4) as f64, pick(&format!("{n}y"), 4) as f64);
            let (w, h) = (pick(&format!("{n}w"), 4) as f64, 2.0);
            if w == 0.0 {
                build(&[(x, y, 1.0), (x, y + h, 1.0)], true)
            } else {
                build(&[(x, y, 0.0), (x + w, y, 1.0), (x + w, y + h, 0.0), (x, y + h, 1.0)], true)
            }
        }
        _ => {
            let m = 3 + pick(&format!("{n}m"), 4);
            let vs: Vec<_> = (0..m).map(|i| (pick(&format!("{n}x{i}"), 6) as f64, pick(&format!("{n}y{i}"), 6) as f64, 0.0)).collect();
            build(&vs, true)
        }
    };
    need(simple(&segs(&p), true, 0.02, 0.98));
    // rotate the start vertex
    let k = pick(&format!("{n}rot"), p.vertex_count());
    let vs: Vec<_> = (0..p.vertex_count()).map(|i| p.at((i + k) % p.vertex_count())).map(|x| (x.x, x.y, x.bulge)).collect();
    let p = build(&vs, true);
    if area_of(&segs(&p)) < 0.0 {
        reversed(&p)
    } else {
        p
    }
}
fn bool_grid() {
    let (a, b) = (maybe_reverse("reva", grid_polygon("a")), maybe_reverse("revb", grid_polygon("b")));
    algebra(&a, &b, 1e-2);
}
fn bool_grid_form() {
    let (a, b) = (maybe_reverse("reva", grid_polygon("a")), maybe_reverse("revb", grid_polygon("b")));
    well_formed(&a, &b, 1e-4, true);
}
/// a simple polyline and another one that follows a stretch of it and leaves it to close up
fn shared_pair() -> (Polyline<f64>, Polyline<f64>) {
    let a = blob("a", v(0.0, 0.0), 3.0);
    let sa = segs(&a);
    let n = sa.len();
    let i = pick("from", n);
    let u0 = [0.0, num("u0", 0.1, 0.9)][pick("part0", 2)];
    let u1 = [1.0, num("u1", 0.1, 0.9)][pick("part1", 2)];
    let k = pick("covers", n);
    need(k > 0 || u1 > u0 + 0.1);
    let part = |g: &Seg, x: f64, y: f64| Seg { a: if x == 0.0 { g.a } else { g.at(x) }, b: if y == 1.0 { g.b } else { g.at(y) }, t: if x == 0.0 && y == 1.0 { g.t } else { (g.t.atan() * (y - x)).tan() } };
    let mut vs: Vec<(f64, f64, f64)> = vec![];
    let mut end = sa[i].a;
    for j in 0..=k {
        let g = part(&sa[(i + j) % n], if j == 0 { u0 } else { 0.0 }, if j == k { u1 } else { 1.0 });
        vs.push((g.a.x, g.a.y, g.t));
        end = g.b;
    }
    let start = v(vs[0].0, vs[0].1);
    let own = vs.len();
    let bulge = |n: &str| if pick(&format!("{n}arc"), 2) == 0 { 0.0 } else { num(n, -0.8, 0.8) };
    vs.push((end.x, end.y, bulge("b")));
    for j in 0..pick("more", 4) {
        vs.push((num(&format!("x{j}"), -4.0, 4.0), num(&format!("y{j}"), -4.0, 4.0), bulge(&format!("b{j}"))));
    }
    for x in vs.iter_mut().skip(own) {
        if x.2.abs() < 0.02 {
            x.2 = 0.0;
        }
    }
    let b = build(&vs, true);
    let sb = segs(&b);
    need(simple(&sb, true, 0.02, 0.98));
    // away from the stretch the operands are in general position
    let m = 1e-2;
    let at_end = |q: V| dist2(q, start) < 1e-9 || dist2(q, end) < 1e-9;
    for y in &sb[own..] {
        for x in &sa {
            for q in [y.a, y.b] {
                need(at_end(q) || x.dist(q) > m);
            }
            for q in [x.a, x.b] {
                need(at_end(q) || y.dist(q) > m);
            }
            // leaves transversally
            for (q, d) in [(y.a, y.dir(0.0)), (y.b, y.dir(1.0))] {
                if at_end(q) && x.dist(q) < 1e-9 {
                    need(crs(x.foot(q).1, d).abs() > 0.1);
                }
            }
            match (x.line(), y.line()) {
                (true, true) => {}
                (true, false) | (false, true) => {
                    let (l, c) = if x.line() { (x, y) } else { (y, x) };
                    need((crs(l.dir(0.0), sub(c.center(), l.a)).abs() - c.radius()).abs() > m);
                }
                _ => {
                    let d = dist2(x.center(), y.center());
                    need(d > m && (d - x.radius() - y.radius()).abs() > m && (d - (x.radius() - y.radius()).abs()).abs() > m);
                }
            }
            // crossings keep their distance from the ends of the stretch
            for q in x.crossings(y, 0.0) {
                need([start, end].iter().all(|w| dist2(q, *w) > 5.0 * m || dist2(q, *w) < 1e-6));
            }
        }
    }
    let l = b.vertex_count();
    let r = pick("rot", l);
    let b = build(&(0..l).map(|i| vs[(i + r) % l]).collect::<Vec<_>>(), true);
    let (a, b) = (maybe_reverse("reva", a), maybe_reverse("revb", b));
    dump("operand", &[a.clone(), b.clone()]);
    if pick("swap", 2) == 1 {
        (b, a)
    } else {
        (a, b)
    }
}
fn bool_shared() {
    let (a, b) = shared_pair();
    algebra(&a, &b, 1e-2);
}
fn bool_shared_form() {
    let (a, b) = shared_pair();
    well_formed(&a, &b, 1e-4, true);
}
/// coincident operands and invalid operands
fn bool_self() {
    let a = blob("a", v(0.0, 0.0), 3.0);
    let n = a.vertex_count();
    let k = pick("rot", n);
    let vs: Vec<_> = (0..n).map(|i| a.at((i + k) % n)).map(|x| (x.x, x.y, x.bulge)).collect();
    let b = maybe_reverse("revb", build(&vs, true));
    let a = maybe_reverse("reva", a);
    algebra(&a, &b, 1e-2);
    for op in OPS {
        must("coincident operands overlap", matches!(a.boolean(&b, op).result_info, BooleanResultInfo::Overlapping));
    }
    let mut open = a.clone();
    open.set_is_closed(false);
    for op in OPS {
        for r in [open.boolean(&b, op), a.boolean(&open, op), Polyline::new_closed().boolean(&b, op)] {
            must("open or empty operands are rejected", matches!(r.result_info, BooleanResultInfo::InvalidInput) && r.pos_plines.is_empty() && r.neg_plines.is_empty());
        }
    }
}
/// the start vertex, the direction of the operands, the order of commutative operations and a
/// given spatial index do not matter
fn bool_invariance() {
    let (a, b) = two_blobs();
    need(general_pair(&segs(&a), &segs(&b), 1e-3));
    let sum = |r: &BooleanResult<Polyline<f64>>| {
        (
            r.pos_plines.len(),
            r.neg_plines.len(),
            r.pos_plines.iter().map(|p| area_of(&segs(&p.pline)).abs()).sum::<f64>(),
            r.neg_plines.iter().map(|p| area_of(&segs(&p.pline)).abs()).sum::<f64>(),
        )
    };
    let same = |x: (usize, usize, f64, f64), y: (usize, usize, f64, f64)| x.0 == y.0 && x.1 == y.1 && (x.2 - y.2).abs() < 1e-3 && (x.3 - y.3).abs() < 1e-3;
    let rot = |p: &Polyline<f64>, k: usize| {
        let n = p.vertex_count();
        let vs: Vec<_> = (0..n).map(|i| p.at((i + k) % n)).map(|x| (x.x, x.y, x.bulge)).collect();
        build(&vs, true)
    };
    let (k1, k2) = (pick("rota", a.vertex_count()), pick("rotb", b.vertex_count()));
    let ix = a.create_aabb_index();
    for op in OPS {
        let r = sum(&a.boolean(&b, op));
        must("the start vertex does not matter", same(r, sum(&rot(&a, k1).boolean(&rot(&b, k2), op))));
        must("the direction does not matter", same(r, sum(&a.boolean(&reversed(&b), op))));
        must("the direction does not matter", same(r, sum(&reversed(&a).boolean(&b, op))));
        if op != BooleanOp::Not {
            must("symmetric operations commute", same(r, sum(&b.boolean(&a, op))));
        }
        let o = PlineBooleanOptions { pline1_aabb_index: Some(&ix), pos_equal_eps: 1e-5 };
        must("a given index does not matter", same(r, sum(&a.boolean_opt(&b, op, &o))));
    }
}
pub fn register(v: &mut Vec<Contract>) {
    bounded!(v, "bool_algebra", "boolean", "random simple operands, 2 to 8 segments", bool_algebra);
    bounded!(v, "bool_form", "boolean", "random simple operands, 2 to 8 segments", bool_form);
    bounded!(v, "bool_grid", "boolean", "grid polygons and stadiums", bool_grid);
    bounded!(v, "bool_grid_form", "boolean", "grid polygons and stadiums", bool_grid_form);
    bounded!(v, "bool_shared", "boolean", "random simple operands of 2 to 12 segments, one follows a stretch of the other", bool_shared);
    bounded!(v, "bool_shared_form", "boolean", "random simple operands of 2 to 12 segments, one follows a stretch of the other", bool_shared_form);
    bounded!(v, "bool_self", "boolean, boolean_opt", "random simple operands, 2 to 8 segments", bool_self);
    bounded!(v, "bool_invariance", "boolean, boolean_opt", "random simple operands, 2 to 8 segments", bool_invariance);
}
