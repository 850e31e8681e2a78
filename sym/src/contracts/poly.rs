//! Polyline level contracts. Vertex positions and bulges are universally quantified, vertex counts
//! are enumerated up to the stated bound.
use super::basics::*;
use super::geom::*;
use super::intr::eps;
use crate::run::Contract;
use crate::sc::*;
use crate::{bounded, contract};
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
use num_traits::real::Real as _;

pub type Vx<S> = PlineVertex<S>;

/// arbitrary bulge: a line, a left or a right arc
pub fn any_bulge<S: Sc>(n: &str) -> S {
    let k = S::choose(&format!("{n}kind"), 3);
    if k == 0 {
        return S::zero();
    }
    let b = S::inp_log(&format!("{n}b"), 1e-4, 1.0);
    S::assume(S::within(S::c(1e-6), b, S::one()));
    if k == 1 {
        b
    } else {
        -b
    }
}
pub fn raw_vertexes<S: Sc>(n: usize) -> Vec<Vx<S>> {
    (0..n)
        .map(|i| {
            let p = v2::<S>(&format!("p{i}"), 10.0);
            Vx::new(p.x, p.y, S::inp(&format!("b{i}"), -1.0, 1.0))
        })
        .collect()
}
pub fn poly<S: Sc>(v: &[Vx<S>], closed: bool) -> Polyline<S> {
    let mut p = if closed { Polyline::new_closed() } else { Polyline::new() };
    for x in v {
        p.add_vertex(*x);
    }
    p
}
pub fn same_list<S: Sc>(a: &[Vx<S>], b: &[Vx<S>]) -> S::B {
    if a.len() != b.len() {
        return S::tru(false);
    }
    S::and(a.iter().zip(b).map(|(x, y)| vtx_eq(*x, *y)).collect())
}
pub fn near_list<S: Sc>(a: &[Vx<S>], b: &[Vx<S>], t: S) -> S::B {
    if a.len() != b.len() {
        return S::tru(false);
    }
    S::and(a.iter().zip(b).map(|(x, y)| S::and(vec![vnear(x.pos(), y.pos(), t), S::near(x.bulge, y.bulge, t)])).collect())
}
pub fn list<S: Sc, P: PlineSource<Num = S> + ?Sized>(p: &P) -> Vec<Vx<S>> {
    p.iter_vertexes().collect()
}

/// C01 on the concrete container: identical statements to the Kani harnesses, vertex counts up to 64
fn indexes() {
    type S = f64;
    let ens = |l: &str, b: bool| S::ensure(l, S::tru(b));
    let n = S::choose("n", 12);
    let n = if n == 11 { 11 + S::choose("n2", 53) } else { n };
    let closed = S::choose("closed", 2) == 1;
    let vs: Vec<Vx<f64>> = (0..n).map(|i| Vx::new(i as f64, -(i as f64), 0.5)).collect();
    let p = poly::<f64>(&vs, closed);
    let m = if n < 2 { 0 } else if closed { n } else { n - 1 };
    let is = |v: Vx<f64>, i: usize| v.x == i as f64 && v.y == -(i as f64) && v.bulge == 0.5;
    ens("the counts", p.vertex_count() == n && p.segment_count() == m && p.is_closed() == closed && p.is_empty() == (n == 0));
    ens("get gives the vertexes in range only", (0..n + 3).all(|i| p.get(i).map_or(i >= n, |v| i < n && is(v, i))));
    let it: Vec<_> = p.iter_vertexes().collect();
    ens("the vertexes once in order", it.len() == n && it.iter().enumerate().all(|(i, v)| is(*v, i)));
    let it: Vec<_> = p.iter_vertexes().rev().collect();
    ens("the vertexes once in reverse order", it.len() == n && it.iter().enumerate().all(|(i, v)| is(*v, n - 1 - i)));
    let sg: Vec<_> = p.iter_segments().collect();
    ens("the segments once in order", sg.len() == m && sg.iter().enumerate().all(|(i, (a, b))| is(*a, i) && is(*b, (i + 1) % n)));
    let ix: Vec<_> = p.iter_segment_indexes().collect();
    ens("the index pairs once in order", ix.len() == m && ix.iter().enumerate().all(|(i, x)| *x == (i, (i + 1) % n)));
    // partly consumed iterators
    let k = S::choose("k", 8);
    let (mut a, mut b, mut c) = (p.iter_vertexes(), p.iter_segments(), p.iter_segment_indexes());
    for _ in 0..k {
        let (x, y, z) = (a.next(), b.next(), c.next());
        let _ = (x, y, z);
    }
    let mut d = a.clone();
    if S::choose("back", 2) == 1 {
        d.next_back();
    }
    ens("remaining counts", a.len() == n.saturating_sub(k) && b.len() == m.saturating_sub(k) && c.size_hint() == (m.saturating_sub(k), Some(m.saturating_sub(k))) && d.len() == d.count());
    let rest: Vec<_> = b.clone().collect();
    ens("a copied segment iterator continues at the same place", rest.len() == m.saturating_sub(k) && rest.iter().enumerate().all(|(i, (x, _))| is(*x, i + k)));
    if n == 0 {
        return;
    }
    ens("last vertex", is(p.last().unwrap(), n - 1));
    ens("next and previous index", (0..n).all(|i| p.next_wrapping_index(i) == (i + 1) % n && p.prev_wrapping_index(i) == (i + n - 1) % n));
    ens("wrapping offsets", (0..n).all(|i| (0..=n).all(|o| p.fwd_wrapping_index(i, o) == (i + o) % n)));
    ens("wrapping distances", (0..n).all(|i| (0..n).all(|j| p.fwd_wrapping_dist(i, j) == (j + n - i) % n)));
}

fn invert<S: Sc>() {
    let n = S::choose("n", 6);
    let closed = S::choose("closed", 2) == 1;
    let v = raw_vertexes::<S>(n);
    let mut p = poly(&v, closed);
    p.invert_direction_mut();
    S::ensure("vertex count and closedness are kept", S::tru(p.vertex_count() == n && p.is_closed() == closed));
    let w = list(&p);
    for i in 0..n {
        S::ensure("positions in reverse order", veq(w[i].pos(), v[n - 1 - i].pos()));
        if n > 1 && (closed || i + 1 < n) {
            // the segment from the new i to i+1 is the old one from n-2-i to n-1-i
            S::ensure("bulge of the reversed segment", eq(w[i].bulge, -v[(2 * n - 2 - i) % n].bulge));
        }
    }
    if n > 1 {
        p.invert_direction_mut();
        let w = list(&p);
        for i in 0..n {
            S::ensure("twice is the identity", veq(w[i].pos(), v[i].pos()));
            if closed || i + 1 < n {
                S::ensure("twice is the identity", eq(w[i].bulge, v[i].bulge));
            }
        }
    }
}
fn translate_scale<S: Sc>() {
    let n = S::choose("n", 5);
    let closed = S::choose("closed", 2) == 1;
    let v = raw_vertexes::<S>(n);
    let mut p = poly(&v, closed);
    let d = v2::<S>("d", 10.0);
    let k = S::inp("k", -3.0, 3.0);
    p.translate_mut(d.x, d.y);
    let e: Vec<Vx<S>> = v.iter().map(|x| Vx::new(x.x + d.x, x.y + d.y, x.bulge)).collect();
    S::ensure("every vertex is moved, bulges kept", same_list(&list(&p), &e));
    p.scale_mut(k);
    let e: Vec<Vx<S>> = e.iter().map(|x| Vx::new(x.x * k, x.y * k, x.bulge)).collect();
    S::ensure("every vertex is scaled, bulges kept", same_list(&list(&p), &e));
    S::ensure("still open or closed", S::tru(p.is_closed() == closed));
}
/// vertexes with segments that are lines or arcs and are not too short
pub fn shaped<S: Sc>(n: usize) -> Vec<Vx<S>> {
    let mut v: Vec<Vx<S>> = vec![];
    for i in 0..n {
        let p = v2::<S>(&format!("p{i}"), 10.0);
        let b = any_bulge::<S>(&format!("s{i}"));
        v.push(Vx::new(p.x, p.y, b));
    }
    v
}
fn pairs<S: Sc>(v: &[Vx<S>], closed: bool) -> Vec<(Vx<S>, Vx<S>)> {
    let n = v.len();
    let m = if n < 2 {
        0
    } else if closed {
        n
    } else {
        n - 1
    };
    (0..m).map(|i| (v[i], v[(i + 1) % n])).collect()
}
fn area<S: Sc>() {
    let n = S::choose("n", 5);
    let closed = S::choose("closed", 2) == 1;
    let v = shaped::<S>(n);
    for (a, b) in pairs(&v, closed) {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-5)));
    }
    let p = poly(&v, closed);
    let mut want = S::zero();
    if closed {
        for (a, b) in pairs(&v, true) {
            want = want + cross(a.pos(), b.pos()) / S::two();
            if a.bulge.abs() > S::zero() {
                // circular segment between chord and arc
                let t = a.bulge;
                let q = S::one() + t * t;
                let r2 = d2(a.pos(), b.pos()) * q * q / (k::<S>(16) * t * t);
                let sin = S::four() * t * (S::one() - t * t) / (q * q);
                want = want + r2 * (S::four() * t.atan() - sin) / S::two();
            }
        }
    }
    let a = p.area();
    S::ensure("signed area", eq(a, want));
    let o = p.orientation();
    let ok = match o {
        PlineOrientation::Open => S::tru(!closed),
        PlineOrientation::Clockwise => S::and(vec![S::tru(closed), lt(a, S::zero())]),
        PlineOrientation::CounterClockwise => S::and(vec![S::tru(closed), ge(a, S::zero())]),
    };
    S::ensure("orientation is the sign of the area", ok);
}
fn path_length<S: Sc>() {
    let n = S::choose("n", 5);
    let closed = S::choose("closed", 2) == 1;
    let mut v = shaped::<S>(if S::SYM { n.min(1) } else { n });
    for i in v.len()..n {
        let p = v2::<S>(&format!("p{i}"), 10.0);
        v.push(Vx::new(p.x, p.y, S::zero()));
    }
    for (a, b) in pairs(&v, closed) {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-2)));
    }
    let mut want = S::zero();
    for (a, b) in pairs(&v, closed) {
        let c = d2(a.pos(), b.pos()).sqrt();
        if a.bulge.abs() > S::zero() && S::SYM {
            // see the contract of seg_length
            want = want + seg_length(a, b);
        } else if a.bulge.abs() > S::zero() {
            let t = a.bulge.abs();
            want = want + c * (S::one() + t * t) / (S::four() * t) * S::four() * t.atan();
        } else {
            want = want + c;
        }
    }
    S::ensure("sum of the segment lengths", eq(poly(&v, closed).path_length(), want));
}
fn extents<S: Sc>() {
    let n = S::choose("n", 4);
    let closed = S::choose("closed", 2) == 1;
    let arc0 = n == 2 && !closed && (!S::SYM || deep()) && S::choose("arc", 2) == 1;
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            if arc0 {
                let a = arc::<S>("a");
                return if i == 0 { a.v1 } else { a.v2 };
            }
            let p = v2::<S>(&format!("p{i}"), 10.0);
            // arcs are covered by the segment box contract; one arc segment here
            let b = if i == 0 && n > 1 && !S::SYM { any_bulge::<S>("s") } else { S::zero() };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    for (a, b) in pairs(&v, closed) {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-5)));
    }
    let p = poly(&v, closed);
    match p.extents() {
        None => S::ensure("no extents without a segment", S::tru(n < 2)),
        Some(e) => {
            let bx: Vec<_> = pairs(&v, closed).iter().map(|(a, b)| seg_bounding_box(*a, *b)).collect();
            S::ensure("extents exist only with a segment", S::tru(n >= 2));
            S::ensure("least x", is_min(e.min_x, &bx.iter().map(|b| b.min_x).collect::<Vec<_>>()));
            S::ensure("least y", is_min(e.min_y, &bx.iter().map(|b| b.min_y).collect::<Vec<_>>()));
            S::ensure("greatest x", is_max(e.max_x, &bx.iter().map(|b| b.max_x).collect::<Vec<_>>()));
            S::ensure("greatest y", is_max(e.max_y, &bx.iter().map(|b| b.max_y).collect::<Vec<_>>()));
        }
    }
}
/// both spatial indexes hold exactly one box per segment, at least the segment box
fn aabb_indexes<S: Sc>() {
    let n = S::choose("n", 4);
    let closed = S::choose("closed", 2) == 1;
    let exact = S::choose("exact", 2) == 1;
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            let p = v2::<S>(&format!("p{i}"), 10.0);
            let b = if i == 0 && n > 1 && !(S::SYM && (n > 2 || exact)) { any_bulge::<S>("s") } else { S::zero() };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    let ps = pairs(&v, closed);
    for (a, b) in &ps {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-5)));
    }
    let p = poly(&v, closed);
    let ix = if exact { p.create_aabb_index() } else { p.create_approx_aabb_index() };
    S::ensure("one box per segment", S::tru(ix.count() == ps.len()));
    let boxes = ix.item_boxes();
    let ids: Vec<usize> = ix.item_indices().to_vec();
    S::ensure("one box per segment", S::tru(boxes.len() == ps.len() && ids.len() == ps.len()));
    let mut seen = vec![false; ps.len()];
    for (b, i) in boxes.iter().zip(&ids) {
        if *i >= ps.len() || seen[*i] {
            S::ensure("keys are the segment indexes", S::tru(false));
            return;
        }
        seen[*i] = true;
        let (x, y) = ps[*i];
        let w = if exact { seg_bounding_box(x, y) } else { seg_fast_approx_bounding_box(x, y) };
        S::ensure(
            "box of its segment",
            S::and(vec![eq(b.min_x, w.min_x), eq(b.min_y, w.min_y), eq(b.max_x, w.max_x), eq(b.max_y, w.max_y)]),
        );
    }
    S::ensure("keys are the segment indexes", S::tru(seen.iter().all(|x| *x)));
}

/// p is not within `m` of the supporting line of a..b
fn off_line<S: Sc>(a: Vector2<S>, b: Vector2<S>, p: Vector2<S>, m: f64) -> S::B {
    let c = cross(b - a, p - a);
    S::or(vec![gt(c, S::c(m)), lt(c, S::c(-m))])
}
/// winding number of a polygon with straight sides, by counting crossings of the ray to the left
fn ray_winding<S: Sc>(v: &[Vx<S>], p: Vector2<S>) -> i32 {
    let mut w = 0;
    for (a, b) in pairs(v, true) {
        let (ua, ub) = (a.y > p.y, b.y > p.y);
        if ua != ub {
            // crossing abscissa against p.x
            let num = (b.x - a.x) * (p.y - a.y) - (p.x - a.x) * (b.y - a.y);
            let left = if b.y > a.y { num < S::zero() } else { num > S::zero() };
            if left {
                w += if b.y > a.y { -1 } else { 1 };
            }
        }
    }
    w
}
fn winding_lines<S: Sc>() {
    let n = if S::SYM { 3 } else { 3 + S::choose("more", 5) };
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            let p = v2::<S>(&format!("p{i}"), 10.0);
            Vx::new(p.x, p.y, S::zero())
        })
        .collect();
    let q = v2::<S>("q", 10.0);
    for (a, b) in pairs(&v, true) {
        // the point is not on the curve
        let on = S::and(vec![
            eq(cross(b.pos() - a.pos(), q - a.pos()), S::zero()),
            le(dot(q - a.pos(), q - b.pos()), S::zero()),
        ]);
        S::assume(S::not(on));
        if !S::SYM {
            S::assume(off_line(a.pos(), b.pos(), q, 1e-6));
        }
    }
    let p = poly(&v, true);
    S::ensure("winding number", S::tru(p.winding_number(q) == ray_winding(&v, q)));
    S::ensure("open polylines wind around nothing", S::tru(poly(&v, false).winding_number(q) == 0));
}
/// arcs add or remove the region between the chord and the arc
fn winding_arcs<S: Sc>() {
    let n = if S::SYM { 2 } else { 2 + S::choose("more", 4) };
    let v: Vec<Vx<S>> = if S::SYM {
        let a = v2::<S>("p0", 10.0);
        let b = v2::<S>("p1", 10.0);
        let x = any_bulge::<S>("s0");
        let y = any_bulge::<S>("s1");
        vec![Vx::new(a.x, a.y, x), Vx::new(b.x, b.y, y)]
    } else {
        shaped::<S>(n)
    };
    let q = v2::<S>("q", 10.0);
    let flat: Vec<Vx<S>> = v.iter().map(|x| Vx::new(x.x, x.y, S::zero())).collect();
    let mut want = 0;
    for (a, b) in pairs(&v, true) {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-5)));
        let c = cross(b.pos() - a.pos(), q - a.pos());
        let m = if S::SYM { S::zero() } else { S::c(1e-6) };
        S::assume(S::or(vec![gt(c, m), lt(c, -m)]));
        if a.bulge.abs() > S::zero() {
            let t = a.bulge;
            // power of q for the circle through the arc: |q-a||q-b| form, times 4t (positive inside
            // for the side of the arc)
            let m = midpoint(a.pos(), b.pos());
            let d = b.pos() - a.pos();
            let h = (S::one() - t * t) / (S::four() * t);
            let ctr = Vector2::new(m.x - h * d.y, m.y + h * d.x);
            let r2 = d2(ctr, a.pos());
            let e = r2 - d2(ctr, q);
            let w = if S::SYM { S::zero() } else { S::c(1e-6) };
            S::assume(S::or(vec![gt(e, w), lt(e, -w)]));
            let outside_chord = if t > S::zero() { c < S::zero() } else { c > S::zero() };
            if e > S::zero() && outside_chord {
                want += if t > S::zero() { 1 } else { -1 };
            }
        }
    }
    if n > 2 {
        want += ray_winding(&flat, q);
    }
    S::ensure("winding number", S::tru(poly(&v, true).winding_number(q) == want));
}

/// consecutive repeat positions: what the result must be
fn dedupe<S: Sc>(v: &[Vx<S>], rep: &[bool], closed: bool, last_on_first: bool) -> Vec<Vx<S>> {
    let mut w: Vec<Vx<S>> = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 && rep[i] {
            let l = w.len() - 1;
            w[l].bulge = x.bulge;
        } else {
            w.push(*x);
        }
    }
    if closed && last_on_first && w.len() > 1 {
        w.pop();
    }
    w
}
/// a list with chosen repeats (exact or within the epsilon) and clearly different other vertexes
fn with_repeats<S: Sc>(n: usize, eps: f64) -> (Vec<Vx<S>>, Vec<bool>, bool) {
    let mut v: Vec<Vx<S>> = vec![];
    let mut rep = vec![];
    let mut group: Vector2<S> = Vector2::new(S::zero(), S::zero());
    let mut on_first = true;
    let far = |a: Vector2<S>, b: Vector2<S>| {
        let m = S::c(2.0 * eps);
        S::assume(S::or(vec![gt(a.x - b.x, m), lt(a.x - b.x, -m), gt(a.y - b.y, m), lt(a.y - b.y, -m)]));
    };
    for i in 0..n {
        let b = S::inp(&format!("b{i}"), -1.0, 1.0);
        let kind = if i == 0 { 1 } else { S::choose(&format!("kind{i}"), if i + 1 == n { 3 } else { 2 }) };
        let p = match kind {
            0 => {
                // within the epsilon of the first vertex of the group
                let (dx, dy) = (S::inp(&format!("dx{i}"), -1.0, 1.0), S::inp(&format!("dy{i}"), -1.0, 1.0));
                for d in [dx, dy] {
                    S::assume(S::within(S::c(-0.4), d, S::c(0.4)));
                }
                Vector2::new(group.x + dx * S::c(eps), group.y + dy * S::c(eps))
            }
            1 => {
                let p = v2::<S>(&format!("p{i}"), 10.0);
                if i > 0 {
                    far(p, group);
                    far(p, v[0].pos());
                    on_first = false;
                }
                group = p;
                p
            }
            _ => {
                // the last vertex comes back to the first one
                S::assume(S::tru(!on_first));
                on_first = true;
                group = v[0].pos();
                group
            }
        };
        rep.push(kind == 0);
        v.push(Vx::new(p.x, p.y, b));
    }
    (v, rep, on_first && n > 1)
}
fn repeat_pos<S: Sc>() {
    let n = S::choose("n", 6);
    let closed = S::choose("closed", 2) == 1;
    let eps = 1e-3;
    let (v, rep, back) = with_repeats::<S>(n, eps);
    let want = dedupe(&v, &rep, closed, back);
    let p = poly(&v, closed);
    match p.remove_repeat_pos(S::c(eps)) {
        None => S::ensure("nothing is returned only when nothing repeats", S::tru(want.len() == n)),
        Some(r) => {
            S::ensure("one vertex per position, last bulge kept", same_list(&list(&r), &want));
            S::ensure("something was removed", S::tru(want.len() < n));
            S::ensure("still open or closed", S::tru(r.is_closed() == closed));
        }
    }
}
/// the adding functions that skip repeats
fn add_repeat<S: Sc>() {
    let n = 1 + S::choose("n", 5);
    let (v, rep, back) = with_repeats::<S>(n, 1e-3);
    let want = dedupe(&v, &rep, false, false);
    let e = S::c(1e-3);
    let mut a = Polyline::<S>::new();
    for x in &v {
        a.add_or_replace_vertex(*x, e);
    }
    S::ensure("add_or_replace_vertex", same_list(&list(&a), &want));
    let mut a = Polyline::<S>::new();
    for x in &v {
        a.add_or_replace(x.x, x.y, x.bulge, e);
    }
    S::ensure("add_or_replace", same_list(&list(&a), &want));
    let src = poly(&v, S::choose("closed", 2) == 1);
    let mut a = Polyline::<S>::new();
    a.extend_remove_repeat(&src, e);
    S::ensure("extend_remove_repeat", same_list(&list(&a), &want));
    let a = Polyline::<S>::create_from_remove_repeat(&src, e);
    let want = dedupe(&v, &rep, src.is_closed(), back);
    S::ensure("create_from_remove_repeat", S::and(vec![same_list(&list(&a), &want), S::tru(a.is_closed() == src.is_closed())]));
    let mut a = Polyline::<S>::new();
    a.extend(&src);
    S::ensure("extend keeps everything", same_list(&list(&a), &v));
}

/// any positions, chains of repeats included: what merging keeps, and then what closing keeps
fn merged<S: Sc>(v: &[Vx<S>], closed: bool, e: S) -> Vec<Vx<S>> {
    let close = |a: &Vx<S>, b: &Vx<S>| (a.x - b.x).abs() < e && (a.y - b.y).abs() < e;
    let mut w: Vec<Vx<S>> = vec![];
    for x in v {
        match w.last_mut() {
            Some(l) if close(l, x) => l.bulge = x.bulge,
            _ => w.push(*x),
        }
    }
    while closed && w.len() > 1 && close(w.last().unwrap(), &w[0]) {
        w.pop();
    }
    w
}
fn repeat_any<S: Sc>() {
    let n = S::choose("n", if S::SYM { 5 } else { 8 });
    let closed = S::choose("closed", 2) == 1;
    let e = S::c(1e-3);
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            let c = if S::SYM { 0 } else { S::choose(&format!("c{i}"), 3) as i32 };
            let (dx, dy) = (S::inp(&format!("dx{i}"), -2.2, 2.2), S::inp(&format!("dy{i}"), -0.6, 0.6));
            Vx::new(k::<S>(c) + dx * e, dy * e, S::inp(&format!("b{i}"), -1.0, 1.0))
        })
        .collect();
    let p = poly(&v, closed);
    let want = if n < 2 { v.clone() } else { merged(&v, closed, e) };
    let got = p.remove_repeat_pos(e);
    S::ensure("nothing is returned only when nothing repeats", S::tru(got.is_none() == (want.len() == n)));
    let w = got.as_ref().map(list).unwrap_or(v.clone());
    S::ensure("one vertex per run of repeats, last bulge kept", same_list(&w, &want));
    let m = w.len();
    let pairs = if m < 2 { 0 } else if closed { m } else { m - 1 };
    S::ensure("no repeats are left", S::and((0..pairs).map(|i| S::not(vnear(w[i].pos(), w[(i + 1) % m].pos(), e))).collect()));
    S::ensure("still open or closed", S::tru(got.map_or(true, |g| g.is_closed() == closed)));
    let w = list(&Polyline::<S>::create_from_remove_repeat(&p, e));
    S::ensure("create_from_remove_repeat", same_list(&w, &want));
}

/// redundant vertexes: a base polyline with clear corners, subdivided and with repeats
fn redundant<S: Sc>() {
    let closed = S::choose("closed", 2) == 1;
    let m = if closed { 3 } else { 2 + S::choose("m", 2) };
    // triangles with a horizontal side
    let flat = closed && (S::SYM && !deep() || S::choose("flat", 2) == 1);
    let y0 = S::inp("p0y", -10.0, 10.0);
    let e = eps::<S>();
    let size = if S::SYM { S::one() } else { S::inp_log("size", 1e-2, 1.0) };
    let base: Vec<Vx<S>> = (0..m)
        .map(|i| {
            let mut p = v2::<S>(&format!("p{i}"), 10.0).scale(size);
            if flat && i < 2 {
                p.y = y0;
            }
            Vx::new(p.x, p.y, S::zero())
        })
        .collect();
    // clear corners, sides not too short
    for i in 0..m {
        for j in 0..i {
            S::assume(vfar(base[i].pos(), base[j].pos(), e * k(30)));
        }
        if m == 3 {
            let (a, b, c) = (base[i].pos(), base[(i + 1) % 3].pos(), base[(i + 2) % 3].pos());
            let x = cross(b - a, c - a);
            let m = e * k(200);
            S::assume(S::or(vec![gt(x, m), lt(x, -m)]));
        }
    }
    let start = if closed { S::choose("rot", 2) } else { 0 };
    let mut v: Vec<Vx<S>> = vec![];
    let segs = if closed { m } else { m - 1 };
    let mut extra = 0;
    for i in 0..m {
        v.push(base[i]);
        // repeats of this vertex (not of the one a closed polyline is started in the middle of)
        for _ in 0..S::choose(&format!("rep{i}"), 3) {
            v.push(base[i]);
            extra += 1;
            S::assume(S::tru(extra <= if S::SYM && !deep() { if closed { 1 } else { 2 } } else { 4 }));
        }
        if i < segs {
            let a = base[i].pos();
            let d = base[(i + 1) % m].pos() - a;
            let mut t = S::zero();
            for j in 0..S::choose(&format!("sub{i}"), 3) {
                let s = S::inp(&format!("t{i}_{j}"), 0.1, 0.4);
                S::assume(S::within(S::c(0.1), s, S::c(0.4)));
                t = t + s;
                let q = a + d.scale(t);
                v.push(Vx::new(q.x, q.y, S::zero()));
                extra += 1;
                S::assume(S::tru(extra <= if S::SYM && !deep() { if closed { 1 } else { 2 } } else { 4 }));
            }
        }
    }
    let back = if start == 1 { v.len() - 1 } else { 0 };
    v.rotate_left(back);
    let n = v.len();
    let p = poly(&v, closed);
    let r = p.remove_redundant(e);
    S::ensure("nothing is returned only when nothing is redundant", S::iff(S::tru(r.is_none()), S::tru(n == m)));
    if let Some(r) = r {
        let w = list(&r);
        let mut alts = vec![];
        for k in 0..if closed { m } else { 1 } {
            let mut b = base.clone();
            b.rotate_left(k);
            alts.push(same_list(&w, &b));
        }
        S::ensure("only the corners remain", S::or(alts));
        S::ensure("still open or closed", S::tru(r.is_closed() == closed));
    }
}
/// a straight open polyline that turns back: the turning point stays, points passed on the way go
fn redundant_spike<S: Sc>() {
    let e = eps::<S>();
    let size = if S::SYM { S::one() } else { S::inp_log("size", 1e-3, 1.0) };
    let a = v2::<S>("a", 10.0).scale(size);
    let v = v2::<S>("v", 10.0).scale(size);
    let t = S::inp_log("t", 1e-3, 2.0);
    S::assume(S::and(vec![gt(t, S::zero()), lt(t, k(10))]));
    let l2 = dot(v, v);
    // the way back is more than the tolerance
    S::assume(S::and(vec![gt(l2 * t, e + e), gt(t * t * l2, k::<S>(9) * e * e), gt(l2, k::<S>(900) * e * e)]));
    let (b, c) = (a + v, a + v.scale(S::one() - t));
    let f = S::inp("f", 0.1, 0.9);
    S::assume(S::within(S::c(0.1), f, S::c(0.9)));
    let m = a + v.scale(f);
    let mid = S::choose("mid", 2) == 1;
    let x = |p: Vector2<S>| Vx::new(p.x, p.y, S::zero());
    let base = vec![x(a), x(b), x(c)];
    let mut full = base.clone();
    if mid {
        full.insert(1, x(m));
    }
    match poly(&full, false).remove_redundant(e) {
        None => S::ensure("the turning point stays", S::tru(!mid)),
        Some(r) => S::ensure("the turning point stays", same_list(&list(&r), &base)),
    }
}
/// one position only
fn redundant_point<S: Sc>() {
    let n = 1 + S::choose("n", 5);
    let closed = S::choose("closed", 2) == 1;
    let q = v2::<S>("p", 10.0);
    let v: Vec<Vx<S>> = (0..n).map(|i| Vx::new(q.x, q.y, S::inp(&format!("b{i}"), -1.0, 1.0))).collect();
    let w = [v[n - 1]];
    match poly(&v, closed).remove_redundant(S::c(1e-6)) {
        None => S::ensure("a single vertex is kept", S::tru(n == 1)),
        Some(r) => S::ensure("a single vertex is kept", same_list(&list(&r), &w)),
    }
}

/// starting vertex moved along a closed polyline
fn rotate_start<S: Sc>() {
    let n = 2 + S::choose("n", 3);
    let i = S::choose("i", n);
    let at = S::choose("at", 3);
    let v: Vec<Vx<S>> = (0..n)
        .map(|j| {
            let p = v2::<S>(&format!("p{j}"), 10.0);
            let b = if j == i && at == 2 && S::SYM { S::zero() } else { any_bulge::<S>(&format!("s{j}")) };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    let e = eps::<S>();
    for (a, b) in pairs(&v, true) {
        S::assume(vfar(a.pos(), b.pos(), e * k(1000)));
    }
    let (a, b) = (v[i], v[(i + 1) % n]);
    let t = S::inp("t", 0.0, 1.0);
    let (q, parts) = match at {
        0 => (a.pos(), None),
        1 => (b.pos(), None),
        _ => {
            S::assume(S::within(S::c(0.01), t, S::c(0.99)));
            let (q, b1, b2) = part(a, b, t);
            (q, Some((b1, b2)))
        }
    };
    let mut want: Vec<Vx<S>> = vec![];
    match parts {
        None => {
            let s = if at == 0 { i } else { i + 1 };
            for j in 0..n {
                want.push(v[(s + j) % n]);
            }
        }
        Some((b1, b2)) => {
            want.push(Vx::new(q.x, q.y, b2));
            for j in 1..n {
                want.push(v[(i + j) % n]);
            }
            want.push(Vx::new(a.x, a.y, b1));
        }
    }
    match poly(&v, true).rotate_start(i, q, e) {
        Some(r) => {
            S::ensure_tol("same curve from the new start", same_list(&list(&r), &want), 1e-4);
            S::ensure("stays closed", S::tru(r.is_closed()));
        }
        None => S::ensure("a closed polyline can be rotated", S::tru(false)),
    }
    S::ensure("open polylines are not rotated", S::tru(poly(&v, false).rotate_start(i, q, e).is_none()));
    S::ensure("index out of bounds", S::tru(poly(&v, true).rotate_start(n, q, e).is_none()));
}
/// the point at the fraction t of a segment, and the bulges of the two parts
pub fn part<S: Sc>(a: Vx<S>, b: Vx<S>, t: S) -> (Vector2<S>, S, S) {
    if a.bulge.abs() > S::zero() {
        let f = a.bulge.atan();
        let (b1, b2) = ((f * t).tan(), (f * (S::one() - t)).tan());
        let (_, c) = seg_arc_radius_and_center(a, b);
        (c + rot4(a.pos() - c, b1), b1, b2)
    } else {
        (a.pos() + (b.pos() - a.pos()).scale(t), S::zero(), S::zero())
    }
}

/// the bulge of the part of segment a..b between the fractions s and t
fn piece<S: Sc>(a: Vx<S>, s: S, t: S) -> S {
    if a.bulge.abs() > S::zero() {
        if S::SYM {
            a.bulge
        } else {
            (a.bulge.atan() * (t - s)).tan()
        }
    } else {
        S::zero()
    }
}
fn view<S: Sc>() {
    let n = 2 + S::choose("n", 3);
    let closed = S::choose("closed", 2) == 1;
    let segs = if closed { n } else { n - 1 };
    let i = S::choose("i", segs);
    let j = S::choose("j", segs);
    // where on the segments: at the start, inside, at the end
    let ki = S::choose("ki", 3);
    let kj = S::choose("kj", 3);
    let v: Vec<Vx<S>> = (0..n)
        .map(|x| {
            let p = v2::<S>(&format!("p{x}"), 10.0);
            let cut = (x == i && ki == 1) || (x == j && kj == 1);
            let b = if cut && S::SYM { S::zero() } else { any_bulge::<S>(&format!("s{x}")) };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    let e = eps::<S>();
    let at = |seg: usize, kind: usize, name: &str| -> (S, Vector2<S>) {
        let (a, b) = (v[seg], v[(seg + 1) % n]);
        match kind {
            0 => (S::zero(), a.pos()),
            1 => {
                let t = S::inp(name, 0.01, 0.99);
                S::assume(S::within(S::c(0.01), t, S::c(0.99)));
                (t, part(a, b, t).0)
            }
            _ => (S::one(), b.pos()),
        }
    };
    let (s, sp) = at(i, ki, "ts");
    let (t, ep) = at(j, kj, "te");
    if i == j && ki == 1 && kj == 1 {
        S::assume(S::or(vec![gt(s - t, S::c(0.01)), lt(s - t, S::c(-0.01))]));
    }
    if !closed {
        S::assume(S::tru(i < j || (i == j)));
        if i == j {
            S::assume(lt(s, t));
        }
    }
    // positions of different vertexes are apart where the code compares them
    for x in 0..n {
        for y in 0..x {
            S::assume(vfar(v[x].pos(), v[y].pos(), e * k(1000)));
        }
    }
    // a start at the end of a segment is the start of the next one
    let step = ki == 2 && (closed || i < j);
    let (i2, s2) = if step { ((i + 1) % n, S::zero()) } else { (i, s) };
    let mut cnt = if closed { (j + n - i2) % n } else { j.wrapping_sub(i2) };
    // from and to the same position
    let same_pos = {
        let (gi, gs) = if ki == 2 { ((i + 1) % n, 0) } else { (i, ki) };
        let (gj, gt) = if kj == 2 { ((j + 1) % n, 0) } else { (j, kj) };
        gs == 0 && gt == 0 && gi == gj
    };
    if same_pos && cnt == 0 {
        // collapsed
        let r = PlineViewData::from_slice_points(&poly(&v, closed), sp, i, ep, j, e);
        S::ensure("no view between equal points", S::tru(r.is_none()));
        return;
    }
    if closed && cnt == 0 && !(s2 < t) {
        cnt = n;
    }
    let mut want: Vec<Vx<S>> = vec![];
    let idx = |x: usize| (i2 + x) % n;
    let end_at_vertex = kj == 0;
    if cnt == 0 {
        want.push(Vx::new(sp.x, sp.y, piece(v[i2], s2, t)));
    } else {
        want.push(Vx::new(sp.x, sp.y, piece(v[i2], s2, S::one())));
        for x in 1..cnt {
            want.push(v[idx(x)]);
        }
        if !end_at_vertex {
            let z = v[idx(cnt)];
            want.push(Vx::new(z.x, z.y, piece(z, S::zero(), t)));
        }
    }
    want.push(Vx::new(ep.x, ep.y, S::zero()));
    let src = poly(&v, closed);
    match PlineViewData::from_slice_points(&src, sp, i, ep, j, e) {
        None => S::ensure("a view between different points", S::tru(false)),
        Some(mut d) => {
            let got = list(&d.view(&src));
            S::ensure_tol("exactly the part between the points", same_list(&got, &want), 1e-4);
            S::ensure("views are open", S::tru(!d.view(&src).is_closed()));
            S::ensure("vertex count", S::tru(d.view(&src).vertex_count() == want.len()));
            S::ensure("nothing past the end", S::tru(d.view(&src).get(want.len()).is_none()));
            d.inverted_direction = true;
            let got = list(&d.view(&src));
            let m = want.len();
            let inv: Vec<Vx<S>> = (0..m)
                .map(|x| {
                    let b = if x + 1 < m { -want[m - 2 - x].bulge } else { S::zero() };
                    want[m - 1 - x].with_bulge(b)
                })
                .collect();
            S::ensure_tol("inverted: the same part backwards", same_list(&got, &inv), 1e-4);
        }
    }
}
fn view_entire<S: Sc>() {
    let n = 2 + S::choose("n", 4);
    let closed = S::choose("closed", 2) == 1;
    let v = raw_vertexes::<S>(n);
    let src = poly(&v, closed);
    let mut d = PlineViewData::from_entire_pline(&src);
    let mut want = v.clone();
    if closed {
        want.push(v[0].with_bulge(S::zero()));
    } else {
        want[n - 1].bulge = S::zero();
    }
    S::ensure("the whole polyline", same_list(&list(&d.view(&src)), &want));
    d.inverted_direction = true;
    let m = want.len();
    let inv: Vec<Vx<S>> = (0..m)
        .map(|x| {
            let b = if x + 1 < m { -want[m - 2 - x].bulge } else { S::zero() };
            want[m - 1 - x].with_bulge(b)
        })
        .collect();
    S::ensure("inverted: the whole polyline backwards", same_list(&list(&d.view(&src)), &inv));
}
fn view_new_start<S: Sc>() {
    let n = 2 + S::choose("n", 3);
    let i = S::choose("i", n);
    let at = S::choose("at", 3);
    let v: Vec<Vx<S>> = (0..n)
        .map(|j| {
            let p = v2::<S>(&format!("p{j}"), 10.0);
            let b = if j == i && at == 1 && S::SYM { S::zero() } else { any_bulge::<S>(&format!("s{j}")) };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    let e = eps::<S>();
    for (a, b) in pairs(&v, true) {
        S::assume(vfar(a.pos(), b.pos(), e * k(1000)));
    }
    let (a, b) = (v[i], v[(i + 1) % n]);
    let mut want: Vec<Vx<S>> = vec![];
    let q = match at {
        1 => {
            let t = S::inp("t", 0.01, 0.99);
            S::assume(S::within(S::c(0.01), t, S::c(0.99)));
            let (q, b1, b2) = part(a, b, t);
            want.push(Vx::new(q.x, q.y, b2));
            for x in 1..n {
                want.push(v[(i + x) % n]);
            }
            want.push(a.with_bulge(b1));
            q
        }
        x => {
            let s = if x == 0 { i } else { i + 1 };
            for y in 0..n {
                want.push(v[(s + y) % n]);
            }
            v[s % n].pos()
        }
    };
    want.push(Vx::new(q.x, q.y, S::zero()));
    let src = poly(&v, true);
    match PlineViewData::from_new_start(&src, q, i, e) {
        None => S::ensure("a closed polyline has a view from any start", S::tru(false)),
        Some(d) => S::ensure_tol("the whole curve from the new start", same_list(&list(&d.view(&src)), &want), 1e-4),
    }
}

fn point_at_length<S: Sc>() {
    let n = 2 + S::choose("n", if S::SYM { 2 } else { 4 });
    let closed = S::choose("closed", 2) == 1;
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            let p = v2::<S>(&format!("p{i}"), 10.0);
            let b = if S::SYM { S::zero() } else { any_bulge::<S>(&format!("s{i}")) };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    for (a, b) in pairs(&v, closed) {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-5)));
    }
    let ps = pairs(&v, closed);
    let p = poly(&v, closed);
    let i = S::choose("i", ps.len());
    let t = S::inp("t", 0.0, 1.0);
    S::assume(S::and(vec![gt(t, S::zero()), le(t, S::one())]));
    let len = |a: Vx<S>, b: Vx<S>| {
        let c = d2(a.pos(), b.pos()).sqrt();
        if a.bulge.abs() > S::zero() {
            let t = a.bulge.abs();
            c * (S::one() + t * t) / t * t.atan()
        } else {
            c
        }
    };
    let mut s = S::zero();
    let mut total = S::zero();
    for (x, (a, b)) in ps.iter().enumerate() {
        let l = len(*a, *b);
        if x < i {
            s = s + l;
        } else if x == i {
            s = s + t * l;
        }
        total = total + l;
    }
    match p.find_point_at_path_length(s) {
        Ok((x, q)) => {
            if S::SYM {
                S::ensure("on the right segment", S::tru(x == i));
            }
            S::ensure_tol("the point at that length", vnear(q, part(ps[i].0, ps[i].1, t).0, S::c(1e-6)), 1e-5);
        }
        Err(_) => S::ensure("a point within the length is found", if S::SYM { S::tru(false) } else { S::tru(i + 1 == ps.len() && t > S::c(0.999999)) }),
    }
    let over = S::inp("over", 0.0, 5.0);
    S::assume(gt(over, S::c(1e-3)));
    match p.find_point_at_path_length(total + over) {
        Ok(_) => S::ensure("past the end", S::tru(false)),
        Err(l) => S::ensure("past the end", eq(l, total)),
    }
    match p.find_point_at_path_length(-over) {
        Ok((x, q)) => S::ensure("before the start", S::and(vec![S::tru(x == 0), veq(q, v[0].pos())])),
        Err(_) => S::ensure("before the start", S::tru(false)),
    }
}
/// closest point: the nearest of the closest points of the segments (see the segment contracts)
fn closest<S: Sc>() {
    let n = S::choose("n", if S::SYM { 4 } else { 6 });
    let closed = S::choose("closed", 2) == 1;
    let v: Vec<Vx<S>> = (0..n)
        .map(|i| {
            let p = v2::<S>(&format!("p{i}"), 10.0);
            let b = if S::SYM { S::zero() } else { any_bulge::<S>(&format!("s{i}")) };
            Vx::new(p.x, p.y, b)
        })
        .collect();
    let q = v2::<S>("q", 10.0);
    for c in v.iter().flat_map(|p| [p.x, p.y]).chain([q.x, q.y]) {
        S::assume(S::within(S::c(-1e3), c, S::c(1e3)));
    }
    let e = S::c(1e-6);
    let ps = pairs(&v, closed);
    for (a, b) in &ps {
        S::assume(vfar(a.pos(), b.pos(), S::c(1e-2)));
    }
    if S::SYM {
        S::assume(S::tru(ps.len() < 3));
    }
    match poly(&v, closed).closest_point(q, e) {
        None => S::ensure("only an empty polyline has no closest point", S::tru(n == 0)),
        Some(r) => {
            S::ensure("only an empty polyline has no closest point", S::tru(n > 0));
            S::ensure("distance of the point", S::and(vec![eq(r.distance * r.distance, d2(r.seg_point, q)), ge(r.distance, S::zero())]));
            if n == 1 {
                S::ensure("the only vertex", S::and(vec![S::tru(r.seg_start_index == 0), veq(r.seg_point, v[0].pos())]));
                return;
            }
            S::ensure("index of a segment", S::tru(r.seg_start_index < ps.len()));
            let c: Vec<Vector2<S>> = ps.iter().map(|(a, b)| seg_closest_point(*a, *b, q, e)).collect();
            S::ensure("point of the segment", veq(r.seg_point, c[r.seg_start_index]));
            for x in c {
                S::ensure("no segment is nearer", le(d2(r.seg_point, q), d2(x, q)));
            }
        }
    }
}

/// arcs replaced by chords within the error distance (concrete vertex counts and values)
fn arcs_lines() {
    type S = f64;
    let n = 2 + S::choose("n", 4);
    let closed = S::choose("closed", 2) == 1;
    let v = shaped::<S>(n);
    for (a, b) in pairs(&v, closed) {
        S::assume(vfar(a.pos(), b.pos(), 0.05));
    }
    let err = S::inp("err", 1e-3, 0.3);
    S::assume(gt(err, 5e-4));
    let r = match poly(&v, closed).arcs_to_approx_lines(err) {
        Some(r) => r,
        None => {
            S::ensure("a result is returned", S::tru(false));
            return;
        }
    };
    let w = list(&r);
    S::ensure("stays open or closed", S::tru(r.is_closed() == closed));
    let m = if closed { w.len() } else { w.len().saturating_sub(1) };
    S::ensure("only lines", S::tru(w[..m].iter().all(|x| x.bulge == 0.0)));
    // walk the result along the source
    let mut k = 0;
    for (a, b) in pairs(&v, closed) {
        S::ensure("source vertexes are kept", S::tru(k < w.len()));
        if k >= w.len() {
            return;
        }
        S::ensure("source vertexes are kept", vnear(w[k].pos(), a.pos(), 1e-9));
        let mut cur = w[k].pos();
        k += 1;
        if a.bulge == 0.0 {
            continue;
        }
        let (rad, c) = seg_arc_radius_and_center(a, b);
        let (step_max, mut steps) = (2.0 * (1.0 - err.min(rad) / rad).acos(), 0);
        loop {
            let nx = if k < w.len() { w[k].pos() } else { w[0].pos() };
            let last = (nx - b.pos()).length() < 1e-7;
            steps += 1;
            if rad > err * 1.001 {
                // the chord is within the error distance of the arc
                let mid = midpoint(cur, nx);
                let sag = rad - (mid - c).length();
                S::ensure("chords stay within the error distance", le(sag, err * 1.0001));
            }
            S::ensure("points of the arc", S::near((nx - c).length(), rad, 1e-6 * rad.max(1.0)));
            let turn = cross(cur - c, nx - c) * a.bulge.signum();
            S::ensure("in the direction of the arc", ge(turn, -1e-6));
            if last || k >= w.len() {
                S::ensure("the arc is followed to its end", S::tru(last));
                break;
            }
            cur = nx;
            k += 1;
            if steps > 100000 {
                break;
            }
        }
        if rad > err * 1.001 {
            let sweep = 4.0 * a.bulge.abs().atan();
            S::ensure("no more chords than needed", le(steps as f64, (sweep / step_max + 1e-6).ceil() + 1e-9));
        }
    }
    S::ensure("nothing else is added", S::tru(w.len() == if closed { k } else { k + 1 }));
    if !closed {
        S::ensure("the last vertex is kept", vnear(w[w.len() - 1].pos(), v[n - 1].pos(), 1e-9));
    }
}
/// arcs on one circle merge (concrete search: exact circles are not closed under floats)
fn redundant_arcs() {
    type S = f64;
    let closed = S::choose("closed", 2) == 1;
    let c = v2::<S>("c", 10.0);
    let r = S::inp("r", 0.5, 10.0);
    let sg = if S::choose("cw", 2) == 1 { -1.0 } else { 1.0 };
    let th = S::inp("th", 0.0, 6.2);
    let at = |a: f64| c + Vector2::new((th + sg * a).cos(), (th + sg * a).sin()).scale(r);
    // break points of a turn
    let n = 2 + S::choose("n", 5);
    let mut total = 0.0;
    let mut steps = vec![];
    for i in 0..n {
        let s = S::inp(&format!("s{i}"), 0.1, 1.3);
        steps.push(s);
        total += s;
    }
    let full = std::f64::consts::PI * 2.0;
    let scale = if closed { full / total } else { S::inp("turn", 0.3, 6.0) / total };
    let mut v = vec![];
    let mut a = 0.0;
    for s in &steps {
        let w = s * scale;
        S::assume(lt(w, std::f64::consts::PI - 1e-3));
        S::assume(gt(w, 1e-2));
        let p = at(a);
        v.push(Vx::new(p.x, p.y, sg * (w / 4.0).tan()));
        if S::choose(&format!("rep{}", v.len()), 5) == 0 {
            v.push(v[v.len() - 1]);
        }
        a += w;
    }
    if !closed {
        let p = at(a);
        v.push(Vx::new(p.x, p.y, S::inp("lastb", -1.0, 1.0)));
    }
    let p = poly(&v, closed);
    let res = p.remove_redundant(1e-6);
    let q = match &res {
        Some(q) => q.clone(),
        None => p.clone(),
    };
    let w = list(&q);
    S::ensure("length is kept", S::near(q.path_length(), r * a, 1e-4 * r.max(1.0)));
    if closed {
        S::ensure("area is kept", S::near(q.area(), sg * std::f64::consts::PI * r * r, 1e-4 * r * r));
    }
    for x in &w {
        S::ensure("vertexes of the source", S::tru(v.iter().any(|y| (y.pos() - x.pos()).length() < 1e-9)));
    }
    // no removable vertex remains
    let ps = pairs(&w, closed);
    let k = ps.len();
    for i in 0..if closed { k } else { k.saturating_sub(1) } {
        let (x, y) = (ps[i].0.bulge, ps[(i + 1) % k].0.bulge);
        let sweep = 4.0 * (x.abs().atan() + y.abs().atan());
        S::ensure("arcs are merged up to half a turn", if k <= 1 { S::tru(true) } else { ge(sweep, std::f64::consts::PI - 1e-5) });
    }
    S::ensure("returned only when something is removed", S::tru(res.is_none() == (w.len() == v.len())));
}

pub fn register(v: &mut Vec<Contract>) {
    bounded!(v, "indexes", "Polyline as PlineSource, VertexIter, SegmentIter, PlineSegIndexIterator, wrapping indexes", "at most 64 vertexes", indexes);
    contract!(v, "invert", "invert_direction_mut", "at most 5 vertexes", invert);
    contract!(v, "translate_scale", "translate_mut, scale_mut", "at most 4 vertexes", translate_scale);
    contract!(v, "area", "area, orientation", "at most 4 vertexes", area, 8);
    contract!(v, "path_length", "path_length, seg_length", "at most 4 vertexes", path_length, 8);
    contract!(v, "extents", "extents", "at most 3 vertexes", extents, 8);
    contract!(v, "aabb_indexes", "create_aabb_index, create_approx_aabb_index", "at most 3 vertexes", aabb_indexes, 8);
    contract!(v, "winding_lines", "winding_number", "triangles", winding_lines);
    contract!(v, "winding_arcs", "winding_number", "two segments", winding_arcs, 8);
    contract!(v, "repeat_pos", "remove_repeat_pos", "at most 5 vertexes", repeat_pos, 8);
    contract!(v, "repeat_any", "remove_repeat_pos, create_from_remove_repeat", "at most 4 vertexes (evaluated: 7)", repeat_any, 8);
    contract!(v, "add_repeat", "add_or_replace, extend_remove_repeat, create_from_remove_repeat", "at most 5 vertexes", add_repeat, 4);
    contract!(v, "redundant", "remove_redundant", "straight sides, at most 3 corners (closed: one side horizontal) and 1 or 2 (thorough: 4) redundant vertexes", redundant, 8);
    contract!(v, "redundant_point", "remove_redundant", "at most 5 vertexes", redundant_point);
    contract!(v, "redundant_spike", "remove_redundant", "open polylines with 3 or 4 vertexes on a line", redundant_spike);
    contract!(v, "rotate_start", "rotate_start", "at most 4 vertexes", rotate_start, 8);
    contract!(v, "view", "PlineViewData::from_slice_points, create, get_vertex", "at most 4 vertexes", view, 8);
    contract!(v, "view_entire", "PlineViewData::from_entire_pline, get_vertex", "at most 5 vertexes", view_entire);
    contract!(v, "view_new_start", "PlineViewData::from_new_start", "at most 4 vertexes", view_new_start, 8);
    contract!(v, "point_at_length", "find_point_at_path_length", "at most 3 vertexes", point_at_length, 4);
    contract!(v, "closest", "closest_point", "at most 3 vertexes", closest, 4);
    bounded!(v, "arcs_lines", "arcs_to_approx_lines", "at most 5 vertexes", arcs_lines);
    bounded!(v, "redundant_arcs", "remove_redundant", "arcs of one circle", redundant_arcs);
}
