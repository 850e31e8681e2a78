//! Whole pipelines (offset, boolean) on symbolic shape families.
use super::basics::*;
use crate::contract;
use crate::run::Contract;
use crate::sc::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

pub fn rect<S: Sc>(p: Vector2<S>, w: S, h: S) -> Polyline<S> {
    let z = S::zero();
    let mut r = Polyline::new_closed();
    r.add(p.x, p.y, z);
    r.add(p.x + w, p.y, z);
    r.add(p.x + w, p.y + h, z);
    r.add(p.x, p.y + h, z);
    r
}
pub fn size<S: Sc>(n: &str) -> S {
    let w = S::inp(n, 0.1, 10.0);
    S::assume(gt(w, S::c(0.05)));
    w
}

fn rect_offset_in<S: Sc>() {
    let (w, h, d) = (size::<S>("w"), size::<S>("h"), size::<S>("d"));
    let p = v2::<S>("p", 10.0);
    let s = rect(p, w, h);
    let m = S::c(1e-2);
    S::assume(S::or(vec![lt(d + d, w - m), gt(d + d, w + m)]));
    S::assume(S::or(vec![lt(d + d, h - m), gt(d + d, h + m)]));
    let r = s.parallel_offset(d);
    let fits = S::and(vec![lt(d + d, w), lt(d + d, h)]);
    S::ensure("collapses exactly when too thin", S::iff(fits, S::tru(r.len() == 1)));
    S::ensure("at most one", S::tru(r.len() <= 1));
    for q in r.iter() {
        S::ensure("area", eq(q.area(), (w - d - d) * (h - d - d)));
        S::ensure("four", S::tru(q.vertex_count() == 4 && q.is_closed()));
    }
}
fn rect_offset_out<S: Sc>() {
    let (w, h, d) = (size::<S>("w"), size::<S>("h"), size::<S>("d"));
    let p = v2::<S>("p", 10.0);
    let s = rect(p, w, h);
    let r = s.parallel_offset(-d);
    S::ensure("one", S::tru(r.len() == 1));
    for q in r.iter() {
        let pi = S::pi();
        S::ensure("area", eq(q.area(), w * h + S::two() * d * (w + h) + pi * d * d));
        S::ensure("eight", S::tru(q.vertex_count() == 8 && q.is_closed()));
    }
}
fn rect_bool<S: Sc>() {
    let (w, h) = (size::<S>("w"), size::<S>("h"));
    let (w2, h2) = (size::<S>("w2"), size::<S>("h2"));
    let p = v2::<S>("p", 10.0);
    let o = v2::<S>("o", 10.0);
    let a = rect(p, w, h);
    let b = rect(p + o, w2, h2);
    let m = S::c(1e-2);
    let apart = |x: S, y: S| S::assume(S::or(vec![lt(x, y - m), gt(x, y + m)]));
    apart(o.x, S::zero());
    apart(o.x, w);
    apart(o.x + w2, S::zero());
    apart(o.x + w2, w);
    apart(o.y, S::zero());
    apart(o.y, h);
    apart(o.y + h2, S::zero());
    apart(o.y + h2, h);
    let r = a.boolean(&b, BooleanOp::And);
    let mx = |a: S, b: S| if a < b { b } else { a };
    let mn = |a: S, b: S| if a < b { a } else { b };
    let ow = mx(S::zero(), mn(w, o.x + w2) - mx(S::zero(), o.x));
    let oh = mx(S::zero(), mn(h, o.y + h2) - mx(S::zero(), o.y));
    let mut t = S::zero();
    for q in &r.pos_plines { t = t + q.pline.area(); }
    for q in &r.neg_plines { t = t + q.pline.area(); }
    S::ensure("area and", eq(t, ow * oh));
}
pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "rect_offset_in", "parallel_offset", "rectangles", rect_offset_in);
    contract!(v, "rect_offset_out", "parallel_offset", "rectangles", rect_offset_out);
    contract!(v, "rect_and", "boolean", "rectangles", rect_bool);
}
