//! Parallel offsets: soundness (every point of the result is at the offset distance, on the right
//! side) and completeness (every point of the parallel curve that is not nearer is in the result).
use super::spec::*;
use crate::bounded;
use crate::run::Contract;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

fn flat(ps: &[Polyline<f64>]) -> Vec<Seg> {
    ps.iter().flat_map(|p| segs(p)).collect()
}
const U: [f64; 7] = [0.0, 0.11, 0.29, 0.5, 0.67, 0.83, 1.0];

/// every point of the results lies at distance |d| of the input
fn sound(s: &[Seg], r: &[Polyline<f64>], d: f64, tol: f64) {
    dump("result", r);
    for g in flat(r) {
        for u in U {
            let ok = (dist_to(s, g.at(u)) - d.abs()).abs() < tol;
            if !ok && std::env::var("DUMP").is_ok() {
                eprintln!("  at {:?} of {:?} distance {} for {}", u, g, dist_to(s, g.at(u)), d);
            }
            must("every point of the offset is at the offset distance", ok);
        }
        // on the chosen side and along the input
        for u in [0.23, 0.5, 0.81] {
            let (q, e) = (g.at(u), g.dir(u));
            let near: Vec<&Seg> = s.iter().filter(|h| h.dist(q) < d.abs() + 10.0 * tol).collect();
            if near.len() == 1 {
                let h = near[0];
                let (p, t) = h.foot(q);
                let inner = dist2(p, h.a) > 20.0 * tol && dist2(p, h.b) > 20.0 * tol;
                if inner {
                    must("the offset is on the chosen side", crs(t, sub(q, p)) * d > 0.0);
                    must("the offset runs along the input", dt(t, e) > 0.9);
                }
            }
        }
    }
    // no part twice
    let f = flat(r);
    for (i, g) in f.iter().enumerate() {
        for (j, h) in f.iter().enumerate() {
            if i != j && g.length() > 20.0 * tol {
                for u in [0.37, 0.5, 0.59] {
                    let q = g.at(u);
                    if dist2(q, g.a).min(dist2(q, g.b)) > 5.0 * tol {
                        must("no part of the offset twice", h.dist(q) > 1e-3 || dist2(q, h.a).min(dist2(q, h.b)) < 5.0 * tol || dt(h.foot(q).1, g.dir(u)) < 0.9);
                    }
                }
            }
        }
    }
}
/// pieces are as long as possible
fn joined(r: &[Polyline<f64>]) {
    for (i, p) in r.iter().enumerate() {
        for (j, q) in r.iter().enumerate() {
            if !p.is_closed() && !q.is_closed() {
                let (x, y) = (p.at(p.vertex_count() - 1), q.at(0));
                let gap = dist2(v(x.x, x.y), v(y.x, y.y));
                must("no piece ends where one starts", i == j || gap > 1e-5);
            }
        }
    }
}
/// points of the parallel curve (left for positive offsets) that are nowhere nearer
fn complete(s: &[Seg], r: &[Polyline<f64>], d: f64, clear: f64, tol: f64) {
    let rs = flat(r);
    for g in s {
        for k in 1..8 {
            let u = k as f64 / 8.0;
            let (p, t) = (g.at(u), g.dir(u));
            let off = |u: f64| {
                let (p, t) = (g.at(u), g.dir(u));
                v(p.x - d * t.y, p.y + d * t.x)
            };
            let q = off(u);
            // an arc whose radius is about the offset collapses
            if !g.line() && (g.radius() - d * g.t.signum()).abs() < clear {
                continue;
            }
            let _ = (p, t);
            // a whole neighbourhood on the parallel curve is valid
            let w = (clear / g.length()).min(0.05);
            let ok = [-1.0, -0.5, 0.0, 0.5, 1.0].iter().all(|x| dist_to(s, off(u + x * w)) > d.abs() - 1e-7);
            // and not by coincidence equally far from another part
            let unique = s.iter().filter(|h| h.dist(q) < d.abs() + clear).count() == 1 || s.iter().all(|h| h.dist(q) > d.abs() - 1e-7 && (h.dist(q) > d.abs() + clear || std::ptr::eq(h, g)));
            if ok && unique {
                if dist_to(&rs, q) >= tol && std::env::var("DUMP").is_ok() {
                    eprintln!("  point {:?} of the parallel to {:?} off by {}", q, g, dist_to(&rs, q));
                }
                must("no part of the parallel curve is lost", dist_to(&rs, q) < tol);
            }
        }
    }
}
/// Distinct feet of q on the input at distance about |d|.
fn feet(s: &[Seg], q: V, d: f64, m: f64) -> usize {
    let mut f: Vec<V> = vec![];
    for g in s {
        if (g.dist(q) - d.abs()).abs() > m {
            continue;
        }
        let mut c = vec![g.a, g.b];
        if g.line() {
            let e = sub(g.b, g.a);
            c.push(g.at((dt(sub(q, g.a), e) / dt(e, e)).clamp(0.0, 1.0)));
        } else {
            let w = sub(q, g.center());
            if len(w) > 1e-9 {
                let p = add(g.center(), mul(w, g.radius() / len(w)));
                if g.in_sweep(p, 0.0) {
                    c.push(p);
                }
            }
        }
        for p in c {
            if (dist2(p, q) - d.abs()).abs() < m && f.iter().all(|x| dist2(*x, p) > 0.3 * d.abs() + 4.0 * m) {
                f.push(p);
            }
        }
    }
    f.len()
}
/// Precondition "general position" of an offset: no point is equally far from three parts of the
/// input, no two parallel curves touch and none crosses another where that joins the next, up to `m`. (There the result changes its topology, and
/// which one is right depends on the epsilons.)
fn stable(s: &[Seg], d: f64, m: f64, both: bool) -> bool {
    let mut ps: Vec<(Seg, V, V)> = vec![];
    // no joint is nearly (and not exactly) smooth
    for g in s {
        for h in s {
            if dist2(g.b, h.a) < 1e-9 {
                let (x, y) = (g.dir(1.0), h.dir(0.0));
                if crs(x, y).abs() < m && (dt(x, y) < 0.0 || crs(x, y).abs() > 1e-7) {
                    return false;
                }
            }
        }
    }
    // parallels on the other side as well, where the input ends or crosses itself
    for (g, d) in s.iter().map(|g| (g, d)).chain(s.iter().filter(|_| both).map(|g| (g, -d))) {
        let n = |u: f64| {
            let t = g.dir(u);
            v(-t.y * d, t.x * d)
        };
        if !g.line() {
            let r = g.radius() - d * g.t.signum();
            if r.abs() < 5.0 * m {
                return false;
            }
            if r < 0.0 {
                continue;
            }
        }
        ps.push((Seg { a: add(g.a, n(0.0)), b: add(g.b, n(1.0)), t: g.t }, g.a, g.b));
    }
    let mut vs: Vec<V> = vec![];
    for p in s.iter().flat_map(|g| [g.a, g.b]) {
        if vs.iter().all(|x| dist2(*x, p) > 1e-9) {
            vs.push(p);
        }
    }
    for p in &vs {
        let (a, b) = (v(p.x - d, p.y), v(p.x + d, p.y));
        ps.push((Seg { a, b, t: 1.0 }, *p, *p));
        ps.push((Seg { a: b, b: a, t: 1.0 }, *p, *p));
    }
    let same = |p: V, q: V| dist2(p, q) < 1e-9;
    let adjacent = |i: usize, j: usize| same(ps[i].1, ps[j].1) || same(ps[i].1, ps[j].2) || same(ps[i].2, ps[j].1) || same(ps[i].2, ps[j].2);
    // where the parallel curves of adjacent segments join
    let valid = |q: &V| dist_to(s, *q) > d.abs() - m;
    let mut joints: Vec<V> = vec![];
    for i in 0..ps.len() {
        if !same(ps[i].1, ps[i].2) {
            joints.extend([ps[i].0.a, ps[i].0.b].iter().filter(|q| valid(q)));
        }
        for j in i + 1..ps.len() {
            if adjacent(i, j) {
                joints.extend(ps[i].0.crossings(&ps[j].0, m).iter().filter(|q| valid(q)));
            }
        }
    }
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            let (x, y) = (&ps[i].0, &ps[j].0);
            let adj = adjacent(i, j);
            if !adj {
                match (x.line(), y.line()) {
                    (true, true) => {
                        if crs(x.dir(0.0), y.dir(0.0)).abs() < 1e-2 && (x.dist(y.a).min(x.dist(y.b)).min(y.dist(x.a)).min(y.dist(x.b))) < m {
                            return false;
                        }
                    }
                    (true, false) | (false, true) => {
                        let (l, c) = if x.line() { (x, y) } else { (y, x) };
                        if (crs(l.dir(0.0), sub(c.center(), l.a)).abs() - c.radius()).abs() < m && l.dist(c.center()) < c.radius() + m {
                            return false;
                        }
                    }
                    _ => {
                        let e = dist2(x.center(), y.center());
                        if e < m && (x.radius() - y.radius()).abs() < m || (e - x.radius() - y.radius()).abs() < m || (e - (x.radius() - y.radius()).abs()).abs() < m {
                            return false;
                        }
                    }
                }
            }
            for q in x.crossings(y, m) {
                if valid(&q) && (feet(s, q, d, m) > 2 || !adj && joints.iter().any(|w| dist2(q, *w) < m)) {
                    return false;
                }
            }
        }
    }
    true
}
fn total_winding(r: &[Polyline<f64>], q: V) -> i32 {
    r.iter().map(|p| winding(&segs(p), q)).sum()
}
fn offset_distance(max: f64) -> f64 {
    let d = num("d", 0.05, max);
    need(d.abs() > 0.02);
    if pick("side", 2) == 1 {
        -d
    } else {
        d
    }
}
/// closed and simple: the result bounds exactly the points farther inside (outside) than d
fn offset_closed() {
    let mut a = blob("a", v(0.0, 0.0), 3.0);
    let rev = pick("rev", 2) == 1;
    if rev {
        a = reversed(&a);
    }
    let d = offset_distance(1.5);
    dump("input", &[a.clone()]);
    let s = segs(&a);
    need(stable(&s, d, 1e-2, false));
    let r = a.parallel_offset(d);
    for p in &r {
        must("offsets of closed polylines are closed", p.is_closed() && p.vertex_count() >= 2);
        must("no repeated positions", segs(p).iter().all(|g| g.chord() > 1e-6));
    }
    sound(&s, &r, d, 2e-3);
    complete(&s, &r, d, 2e-2, 2e-3);
    // left is inside for counter clockwise
    let inward = (d > 0.0) != rev;
    let sgn = if rev { -1 } else { 1 };
    for k in 0..24 {
        let q = v(num(&format!("qx{k}"), -5.0, 5.0), num(&format!("qy{k}"), -5.0, 5.0));
        let (e, inside) = (dist_to(&s, q), winding(&s, q) != 0);
        if (e - d.abs()).abs() < 2e-2 || dist_to(&flat(&r), q) < 1e-2 {
            continue;
        }
        let want = if inward { inside && e > d.abs() } else { inside || e < d.abs() };
        must("the offset bounds exactly the points beyond the distance", total_winding(&r, q) == if want { sgn } else { 0 });
    }
}
/// around the distance at which (part of) the offset vanishes: no panic, well formed, nothing nearer than the distance
fn offset_collapse() {
    let mut a = if pick("cut", 2) == 1 {
        // a slim shape
        let (w, h) = (num("w", 0.4, 2.0), num("h", 2.0, 4.0));
        let (b, c) = (num("b", -0.6, 0.6), num("c", -0.6, 0.6));
        build(&[(-w / 2.0, -h / 2.0, 0.0), (w / 2.0, -h / 2.0, if b.abs() < 0.05 { 0.0 } else { b }), (w / 2.0, h / 2.0, 0.0), (-w / 2.0, h / 2.0, if c.abs() < 0.05 { 0.0 } else { c })], true)
    } else {
        blob("a", v(0.0, 0.0), 3.0)
    };
    need(simple(&segs(&a), true, 0.05, 0.95));
    if pick("rev", 2) == 1 {
        a = reversed(&a);
    }
    let sgn = if area_of(&segs(&a)) > 0.0 { 1.0 } else { -1.0 };
    // where the number of results changes
    let count = |d: f64| a.parallel_offset(sgn * d).len();
    let (mut lo, mut hi) = (0.01, 4.0);
    need(count(lo) == 1 && count(hi) == 0);
    if pick("split", 3) == 0 {
        // the first change instead of the last one
        let mut x = 0.05;
        while count(x) == 1 && x < 4.0 {
            x += 0.05;
        }
        hi = x;
        lo = x - 0.05;
        need(lo > 0.03);
    }
    let c0 = count(hi);
    for _ in 0..40 {
        let mid = 0.5 * (lo + hi);
        if count(mid) == c0 {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    let z = num("z", -8.0, -1.3);
    let d = sgn * (hi - 10f64.powf(z) * if pick("beyond", 4) == 0 { -1.0 } else { 1.0 });
    need(d * sgn > 0.02);
    dump("input", &[a.clone()]);
    let s = segs(&a);
    for self_too in [false, true] {
        let o = PlineOffsetOptions { handle_self_intersects: self_too, ..Default::default() };
        let r = a.parallel_offset_opt(d, &o);
        dump("result", &r);
        for p in &r {
            must("results have two vertexes or more", p.vertex_count() >= 2);
            must("no repeated positions", segs(p).iter().all(|g| g.chord() > 1e-6));
            // (within the distance epsilon of the collapse slivers of that size are legitimate)
            for g in segs(p).iter().filter(|_| z > -4.0) {
                must("nothing is nearer than the distance", U.iter().all(|u| dist_to(&s, g.at(*u)) > d.abs() - 2e-3));
                must("nothing is farther than the distance", U.iter().all(|u| dist_to(&s, g.at(*u)) < d.abs() + 2e-3));
            }
        }
    }
    let mut sh = Shape::from_plines([a.clone()]);
    if sgn < 0.0 {
        // a hole in a large outer polyline
        sh = Shape::from_plines([build(&[(-20.0, -20.0, 0.0), (20.0, -20.0, 0.0), (20.0, 20.0, 0.0), (-20.0, 20.0, 0.0)], true), a.clone()]);
    }
    let r = sh.parallel_offset(d.abs() * sgn, ShapeOffsetOptions::default());
    must("results of shapes have two vertexes or more", r.ccw_plines.iter().chain(&r.cw_plines).all(|p| p.polyline.vertex_count() >= 2));
}
fn offset_same(x: &[Polyline<f64>], y: &[Polyline<f64>]) -> bool {
    let (f, g) = (flat(x), flat(y));
    let l = |z: &[Seg]| z.iter().map(|s| s.length()).sum::<f64>();
    x.len() == y.len() && (l(&f) - l(&g)).abs() < 1e-2 && f.iter().all(|s| dist_to(&g, s.at(0.5)) < 2e-3) && g.iter().all(|s| dist_to(&f, s.at(0.5)) < 2e-3)
}
/// options and representation do not matter
fn offset_invariance() {
    let a = blob("a", v(0.0, 0.0), 3.0);
    let d = offset_distance(1.5);
    dump("input", &[a.clone()]);
    need(stable(&segs(&a), d, 1e-2, false));
    let r = a.parallel_offset(d);
    let ix = a.create_aabb_index();
    let o = PlineOffsetOptions { aabb_index: Some(&ix), ..Default::default() };
    must("a given index does not matter", offset_same(&r, &a.parallel_offset_opt(d, &o)));
    must("reversal exchanges the sides", offset_same(&r, &reversed(&a).parallel_offset(-d)));
    let n = a.vertex_count();
    let k = pick("rot", n);
    let vs: Vec<_> = (0..n).map(|i| a.at((i + k) % n)).map(|x| (x.x, x.y, x.bulge)).collect();
    let q = build(&vs, true).parallel_offset(d);
    let (f, g) = (flat(&r), flat(&q));
    must("the start vertex does not matter", r.len() == q.len() && f.iter().all(|s| dist_to(&g, s.at(0.5)) < 2e-3) && g.iter().all(|s| dist_to(&f, s.at(0.5)) < 2e-3));
}
fn offset_open() {
    let a = path("a", 3.0);
    let s = segs(&a);
    need(simple(&s, false, 0.05, 0.9));
    let d = offset_distance(1.0);
    dump("input", &[a.clone()]);
    need(stable(&s, d, 1e-2, true));
    let r = a.parallel_offset(d);
    for p in &r {
        must("offsets of open polylines are open", !p.is_closed() && p.vertex_count() >= 2);
    }
    joined(&r);
    sound(&s, &r, d, 2e-3);
    complete(&s, &r, d, 2e-2, 2e-3);
}
/// self intersecting input with the option set
fn offset_self() {
    let mut a = path("a", 3.0);
    if a.vertex_count() > 2 && pick("closed", 2) == 1 {
        a.set_is_closed(true);
    }
    let s = segs(&a);
    need(s.iter().all(|g| g.chord() > 0.3));
    let n = s.len();
    for i in 0..n {
        for j in i + 1..n {
            let adj = j == i + 1 || (a.is_closed() && i == 0 && j == n - 1);
            if !adj {
                need(super::boolean::general_pair(&s[i..i + 1], &s[j..j + 1], 5e-2));
            } else {
                let (p, q) = if j == i + 1 { (i, j) } else { (j, i) };
                need(dt(s[p].dir(1.0), s[q].dir(0.0)) > -0.9);
            }
        }
    }
    let d = offset_distance(0.8);
    dump("input", &[a.clone()]);
    need(stable(&s, d, 1e-2, true));
    let o = PlineOffsetOptions { handle_self_intersects: true, ..Default::default() };
    let r = a.parallel_offset_opt(d, &o);
    sound(&s, &r, d, 2e-3);
    complete(&s, &r, d, 2e-2, 2e-3);
}
fn covered(r: &Shape<f64>) {
    let b = r.plines_index.item_boxes();
    must("the index has a box for every polyline", r.plines_index.item_indices().len() == r.ccw_plines.len() + r.cw_plines.len());
    for (k, p) in r.ccw_plines.iter().chain(&r.cw_plines).enumerate() {
        let at = r.plines_index.item_indices().iter().position(|x| *x == k);
        let e = p.polyline.extents().unwrap();
        must("the index covers its polylines", at.is_some_and(|i| b[i].min_x <= e.min_x + 1e-9 && b[i].min_y <= e.min_y + 1e-9 && b[i].max_x >= e.max_x - 1e-9 && b[i].max_y >= e.max_y - 1e-9));
        let n = p.polyline.vertex_count();
        must("the index of a polyline has a box for every segment", p.spatial_index.item_indices().len() == n);
    }
}
/// shapes with holes
fn shape_offset() {
    // one outer polyline with holes, several outer polylines, or an island inside a hole
    let mut all = vec![];
    let at = |n: &str, w: f64| v(num(&format!("cx{n}"), -w, w), num(&format!("cy{n}"), -w, w));
    let layout = pick("layout", 4);
    match layout {
        0 | 1 => {
            all.push(blob("o", v(0.0, 0.0), 4.0));
            for k in 0..pick("holes", 4) {
                all.push(reversed(&blob(&format!("h{k}"), at(&k.to_string(), 2.2), num(&format!("r{k}"), 0.4, 1.2))));
            }
        }
        2 => {
            for k in 0..2 + pick("outer", 2) {
                all.push(blob(&format!("o{k}"), at(&format!("o{k}"), 3.0), num(&format!("s{k}"), 1.0, 2.0)));
            }
            for k in 0..pick("holes", 2) {
                all.push(reversed(&blob(&format!("h{k}"), at(&k.to_string(), 3.0), num(&format!("r{k}"), 0.4, 0.8))));
            }
        }
        _ => {
            all.push(blob("o", v(0.0, 0.0), 4.0));
            all.push(reversed(&blob("h0", at("0", 0.6), num("r0", 1.5, 2.5))));
            all.push(blob("i", at("i", 1.0), num("ri", 0.4, 1.0)));
            if pick("second", 2) == 1 {
                all.push(reversed(&blob("h1", at("1", 2.5), num("r1", 0.3, 0.6))));
            }
        }
    }
    let turn = pick("turn", all.len());
    all.rotate_left(turn);
    let outers = all.iter().filter(|p| area_of(&segs(*p)) > 0.0).count();
    let m = all.len() - outers;
    // apart from each other, holes inside and outer polylines outside of the material of the others
    for i in 0..all.len() {
        for j in i + 1..all.len() {
            let (x, y) = (segs(&all[i]), segs(&all[j]));
            need(x.iter().all(|g| (0..=12).all(|u| dist_to(&y, g.at(u as f64 / 12.0)) > 0.02)));
            need(y.iter().all(|g| (0..=12).all(|u| dist_to(&x, g.at(u as f64 / 12.0)) > 0.02)));
            need(x.iter().all(|g| y.iter().all(|h| g.crossings(h, 0.0).is_empty())));
        }
    }
    for i in 0..all.len() {
        let x = segs(&all[i]);
        let w: i32 = (0..all.len()).filter(|j| *j != i).map(|j| winding(&segs(&all[j]), x[0].a)).sum();
        need(w == (area_of(&x) < 0.0) as i32);
    }
    let d = offset_distance(0.8);
    dump("input", &all);
    let s = flat(&all);
    need(stable(&s, d, 1e-2, false));
    let sh = Shape::from_plines(all.iter().cloned());
    must("the outer polylines and the holes", sh.ccw_plines.len() == outers && sh.cw_plines.len() == m);
    covered(&sh);
    let r = sh.parallel_offset(d, ShapeOffsetOptions::default());
    let ccw: Vec<_> = r.ccw_plines.iter().map(|p| p.polyline.clone()).collect();
    let cw: Vec<_> = r.cw_plines.iter().map(|p| p.polyline.clone()).collect();
    must("outer polylines are counter clockwise", ccw.iter().all(|p| area_of(&segs(p)) > -1e-6));
    must("holes are clockwise", cw.iter().all(|p| area_of(&segs(p)) < 1e-6));
    let both: Vec<_> = ccw.iter().chain(&cw).cloned().collect();
    must("results are closed", both.iter().all(|p| p.is_closed() && p.vertex_count() >= 2));
    covered(&r);
    sound(&s, &both, d, 2e-3);
    for k in 0..24 {
        let q = v(num(&format!("qx{k}"), -5.0, 5.0), num(&format!("qy{k}"), -5.0, 5.0));
        let (e, inside) = (dist_to(&s, q), all.iter().map(|p| winding(&segs(p), q)).sum::<i32>() != 0);
        if (e - d.abs()).abs() < 2e-2 || dist_to(&flat(&both), q) < 1e-2 {
            continue;
        }
        let want = if d > 0.0 { inside && e > d.abs() } else { inside || e < d.abs() };
        must("the offset bounds exactly the points beyond the distance", total_winding(&both, q) == want as i32);
    }
}
pub fn register(v: &mut Vec<Contract>) {
    bounded!(v, "offset_closed", "parallel_offset", "random simple polylines, 2 to 8 segments", offset_closed);
    bounded!(v, "offset_collapse", "parallel_offset, parallel_offset_opt, Shape::parallel_offset", "random simple polylines, 2 to 8 segments, within 5e-2 of a distance at which the result vanishes or splits", offset_collapse);
    bounded!(v, "offset_invariance", "parallel_offset, parallel_offset_opt", "random simple polylines, 2 to 8 segments", offset_invariance);
    bounded!(v, "offset_open", "parallel_offset", "random simple polylines, 1 to 5 segments", offset_open);
    bounded!(v, "offset_self", "parallel_offset_opt", "random polylines, 1 to 6 segments", offset_self);
    bounded!(v, "shape_offset", "Shape::from_plines, Shape::parallel_offset", "random shapes of at most four polylines: holes, several outer polylines, islands", shape_offset);
}
