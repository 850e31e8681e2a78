//! Intersections of primitives and of polyline segments.
use super::basics::*;
use super::geom::*;
use crate::contract;
use crate::run::Contract;
use crate::sc::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

fn vtx<S: Sc>(p: Vector2<S>) -> PlineVertex<S> {
    PlineVertex::new(p.x, p.y, S::zero())
}
fn not_small<S: Sc>(v: Vector2<S>, m: f64) {
    let m = S::c(m);
    S::assume(S::or(vec![gt(v.x, m), lt(v.x, -m), gt(v.y, m), lt(v.y, -m)]));
}
/// the tolerance passed to the code
pub fn eps<S: Sc>() -> S {
    let e = S::inp_log("e", 1e-7, 1e-3);
    S::assume(S::within(S::c(1e-9), e, S::c(1e-2)));
    e
}
/// t beyond [0, 1] by more than m along a vector with squared length l2
fn beyond01<S: Sc>(t: S, l2: S, m: S) -> S::B {
    let (u, v) = (t * t * l2, (t - S::one()) * (t - S::one()) * l2);
    S::or(vec![
        S::and(vec![lt(t, S::zero()), gt(u, m * m)]),
        S::and(vec![gt(t, S::one()), gt(v, m * m)]),
    ])
}
fn inside01<S: Sc>(t: S) -> S::B {
    S::within(S::zero(), t, S::one())
}

/// crossing lines: the crossing point is p, at parameter t of the first and s of the second
fn ll_cross<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let v = v2::<S>("v", 10.0);
    let u = v2::<S>("u", 10.0);
    let (t, s) = (S::inp("t", -1.0, 2.0), S::inp("s", -1.0, 2.0));
    not_small(v, 0.1);
    not_small(u, 0.1);
    let c = cross(v, u);
    let e = eps::<S>();
    let m = e + e;
    S::assume(S::or(vec![gt(c, m), lt(c, -m)]));
    let a = p - v.scale(t);
    let b = p - u.scale(s);
    // clearly inside or clearly outside in each parameter
    S::assume(S::or(vec![inside01(t), beyond01(t, dot(v, v), m)]));
    S::assume(S::or(vec![inside01(s), beyond01(s, dot(u, u), m)]));
    let both = S::and(vec![inside01(t), inside01(s)]);
    match line_line_intr(a, a + v, b, b + u, e) {
        LineLineIntr::TrueIntersect { seg1_t, seg2_t } => {
            S::ensure("reported only when both segments contain it", both);
            S::ensure("parameters", S::and(vec![eq(seg1_t, t), eq(seg2_t, s)]));
        }
        LineLineIntr::FalseIntersect { seg1_t, seg2_t } => {
            S::ensure("outside only when a segment misses it", S::not(both));
            S::ensure("parameters", S::and(vec![eq(seg1_t, t), eq(seg2_t, s)]));
        }
        _ => S::ensure("crossing lines intersect", S::tru(false)),
    }
    match pline_seg_intr(vtx(a), vtx(a + v), vtx(b), vtx(b + u), e) {
        PlineSegIntr::OneIntersect { point } => {
            S::ensure("segments: the crossing point", veq(point, p));
            S::ensure("segments: only when on both", S::and(vec![inside01(t), inside01(s)]));
        }
        PlineSegIntr::NoIntersect => S::ensure("segments: none only when off one", S::not(S::and(vec![inside01(t), inside01(s)]))),
        _ => S::ensure("segments: at most one point", S::tru(false)),
    }
}
fn ll_parallel<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let u = v2::<S>("u", 10.0);
    not_small(u, 0.1);
    let (a, b, h) = (S::inp("a", -2.0, 2.0), S::inp("b", -2.0, 2.0), S::inp("h", -2.0, 2.0));
    let o = Vector2::new(-u.y * h, u.x * h);
    let e = eps::<S>();
    let m = e + e;
    let w = h * dot(u, u);
    S::assume(S::or(vec![gt(w, m), lt(w, -m)]));
    S::assume(gt((b - a) * (b - a), S::c(1e-6)));
    let (v1, v2_) = (p + u.scale(a) + o, p + u.scale(b) + o);
    let r = line_line_intr(v1, v2_, p, p + u, e);
    S::ensure("parallel lines do not meet", S::tru(matches!(r, LineLineIntr::NoIntersect)));
    let r = pline_seg_intr(vtx(v1), vtx(v2_), vtx(p), vtx(p + u), e);
    S::ensure("nor do the segments", S::tru(matches!(r, PlineSegIntr::NoIntersect)));
}
fn ll_collinear<S: Sc>() {
    // first segment from a to b on the line of the second (0 to 1)
    let p = v2::<S>("p", 10.0);
    let u = v2::<S>("u", 10.0);
    not_small(u, 0.1);
    let (a, b) = (S::inp("a", -2.0, 3.0), S::inp("b", -2.0, 3.0));
    let e = eps::<S>();
    // the second segment has length at least 0.1
    let m = e * S::c(20.0);
    S::assume(gt((b - a) * (b - a), m * m));
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    let (v1, v2_) = (p + u.scale(a), p + u.scale(b));
    let (z, one) = (S::zero(), S::one());
    let kind = S::choose("kind", 3);
    match kind {
        0 => {
            S::assume(S::or(vec![lt(hi, -m), gt(lo, one + m)]));
            S::ensure("apart", S::tru(matches!(line_line_intr(v1, v2_, p, p + u, e), LineLineIntr::NoIntersect)));
            S::ensure("apart", S::tru(matches!(pline_seg_intr(vtx(v1), vtx(v2_), vtx(p), vtx(p + u), e), PlineSegIntr::NoIntersect)));
        }
        1 => {
            S::assume(S::and(vec![gt(hi, m), lt(lo, one - m)]));
            let f = if lo < z { z } else { lo };
            let l = if hi > one { one } else { hi };
            S::assume(gt(l - f, m));
            match line_line_intr(v1, v2_, p, p + u, e) {
                LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => {
                    S::ensure("overlap range", S::and(vec![eq(seg2_t0, f), eq(seg2_t1, l)]));
                }
                _ => S::ensure("overlap found", S::tru(false)),
            }
            match pline_seg_intr(vtx(v1), vtx(v2_), vtx(p), vtx(p + u), e) {
                PlineSegIntr::OverlappingLines { point1, point2 } => {
                    S::ensure("overlap points", S::and(vec![veq(point1, p + u.scale(f)), veq(point2, p + u.scale(l))]));
                }
                _ => S::ensure("overlap found", S::tru(false)),
            }
        }
        _ => {
            // end to end
            let at_end = S::choose("at", 2) == 1;
            let (x, y) = if at_end { (lo, one) } else { (hi, z) };
            S::assume(eq(x, y));
            let (v1, v2_) = if S::SYM {
                (v1, v2_)
            } else {
                // put the touching end exactly there
                let d = y - x;
                (p + u.scale(a + d), p + u.scale(b + d))
            };
            match pline_seg_intr(vtx(v1), vtx(v2_), vtx(p), vtx(p + u), e) {
                PlineSegIntr::OneIntersect { point } => S::ensure_tol("touching end", veq(point, p + u.scale(y)), 1e-4),
                _ => S::ensure("touching end found", S::tru(false)),
            }
        }
    }
}
fn ll_points<S: Sc>() {
    // a segment shrunk to a point
    let p = v2::<S>("p", 10.0);
    let u = v2::<S>("u", 10.0);
    not_small(u, 0.1);
    let (t, h) = (S::inp("t", -1.0, 2.0), S::inp("h", -1.0, 1.0));
    let q = p + u.scale(t) + Vector2::new(-u.y * h, u.x * h);
    let on = S::choose("on", 2) == 1;
    let e = eps::<S>();
    let m = e + e;
    S::assume(S::or(vec![inside01(t), beyond01(t, dot(u, u), m)]));
    if on {
        S::assume(eq(h, S::zero()));
    } else {
        let w = h * dot(u, u);
        S::assume(S::or(vec![gt(w, m), lt(w, -m)]));
    }
    let h0 = h;
    let q = if !S::SYM && on { p + u.scale(t) } else { q };
    let _ = h0;
    let r1 = line_line_intr(q, q, p, p + u, e);
    let r2 = line_line_intr(p, p + u, q, q, e);
    match (r1, r2) {
        (LineLineIntr::TrueIntersect { seg1_t, seg2_t }, LineLineIntr::TrueIntersect { seg1_t: a, seg2_t: b }) => {
            S::ensure("point on the segment", S::and(vec![S::tru(on), inside01(t), eq(seg2_t, t), eq(a, t), eq(seg1_t, S::zero()), eq(b, S::zero())]));
        }
        (LineLineIntr::NoIntersect, LineLineIntr::NoIntersect) => {
            S::ensure("point off the segment", S::or(vec![S::tru(!on), S::not(inside01(t))]));
        }
        _ => S::ensure("symmetric", S::tru(false)),
    }
}

struct Chord<S: Sc> {
    c: Vector2<S>,
    r: S,
    f: Vector2<S>,
    t: Vector2<S>,
    h: S,
    g: S,
}
/// a circle and a line cutting it: foot point f at distance h, half chord g
fn chord<S: Sc>() -> Chord<S> {
    let c = v2::<S>("c", 10.0);
    let r = S::inp("r", 0.1, 10.0);
    S::assume(ge(r, S::c(0.05)));
    let m = S::inp_log("m", 1e-3, 1.0);
    S::assume(S::within(S::c(1e-4), m, S::one()));
    let n = unit::<S>("n");
    let q = S::one() + m * m;
    let h = r * (S::one() - m * m) / q;
    let g = r * S::two() * m / q;
    Chord { c, r, f: c + n.scale(h), t: Vector2::new(-n.y, n.x), h, g }
}
/// the line is vertical or clearly not (the code treats lines within 1e-8 of vertical as vertical)
fn not_nearly_vertical<S: Sc>(p0: Vector2<S>, p1: Vector2<S>) {
    let d = p1 - p0;
    for x in [d.x, d.y] {
        S::assume(S::or(vec![eq(x, S::zero()), gt(x, S::c(1e-6)), lt(x, S::c(-1e-6))]));
    }
}
fn lc_two<S: Sc>() {
    let x = chord::<S>();
    let (a, b) = (S::inp("a", -12.0, 12.0), S::inp("b", -12.0, 12.0));
    let e = eps::<S>();
    S::assume(gt(x.r - x.h, e + e));
    S::assume(gt((b - a) * (b - a), S::c(1e-3)));
    let (p0, p1) = (x.f + x.t.scale(a), x.f + x.t.scale(b));
    not_nearly_vertical(p0, p1);
    S::assume(vfar(p0, p1, e + e));
    match line_circle_intr(p0, p1, x.r, x.c, e) {
        LineCircleIntr::TwoIntersects { t0, t1 } => {
            S::ensure("ordered", le(t0, t1));
            let (u, v) = (a + t0 * (b - a), a + t1 * (b - a));
            S::ensure("both crossings", S::and(vec![eq(u * u, x.g * x.g), eq(v * v, x.g * x.g), eq(u + v, S::zero())]));
        }
        _ => S::ensure("a secant cuts twice", S::tru(false)),
    }
}
fn lc_none<S: Sc>() {
    let c = v2::<S>("c", 10.0);
    let r = S::inp("r", 0.1, 10.0);
    S::assume(ge(r, S::c(1e-3)));
    let n = unit::<S>("n");
    let t = Vector2::new(-n.y, n.x);
    let (a, b, h) = (S::inp("a", -12.0, 12.0), S::inp("b", -12.0, 12.0), S::inp("h", 0.0, 20.0));
    let e = eps::<S>();
    S::assume(gt((b - a) * (b - a), S::c(1e-3)));
    let f = c + n.scale(h);
    let (p0, p1) = (f + t.scale(a), f + t.scale(b));
    if S::choose("tangent", 2) == 0 {
        not_nearly_vertical(p0, p1);
        S::assume(gt(h, r + e + e));
        S::assume(vfar(p0, p1, e + e));
        let res = line_circle_intr(p0, p1, r, c, e);
        S::ensure("a passing line misses", S::tru(matches!(res, LineCircleIntr::NoIntersect)));
    } else {
        // as good as tangent: within half the tolerance
        let off = S::inp("off", -0.5, 0.5);
        S::assume(S::within(S::c(-0.5), off, S::c(0.5)));
        let f = c + n.scale(r + off * e);
        let (p0, p1) = (f + t.scale(a), f + t.scale(b));
        not_nearly_vertical(p0, p1);
        S::assume(vfar(p0, p1, e + e));
        match line_circle_intr(p0, p1, r, c, e) {
            LineCircleIntr::TangentIntersect { t0 } => S::ensure("touches at the foot point", eq(a + t0 * (b - a), S::zero())),
            _ => S::ensure("a tangent touches", S::tru(false)),
        }
    }
}
fn lc_point<S: Sc>() {
    let c = v2::<S>("c", 10.0);
    let r = S::inp("r", 0.1, 10.0);
    S::assume(ge(r, S::c(1e-3)));
    let o = v2::<S>("o", 12.0);
    let p = c + o;
    let q = dot(o, o) - r * r;
    let e = eps::<S>();
    let h = e / S::two();
    match line_circle_intr(p, p, r, c, e) {
        LineCircleIntr::TangentIntersect { t0 } => S::ensure("on the circle", S::and(vec![eq(t0, S::zero()), S::near(q, S::zero(), e + e)])),
        LineCircleIntr::NoIntersect => S::ensure("off the circle", S::or(vec![gt(q, h), lt(q, -h)])),
        _ => S::ensure("a point meets at most once", S::tru(false)),
    }
}
fn cc<S: Sc>() {
    let c1 = v2::<S>("c", 10.0);
    let n = unit::<S>("n");
    let (r1, r2, d) = (S::inp("r1", 0.1, 10.0), S::inp("r2", 0.1, 10.0), S::inp("d", 0.0, 22.0));
    for r in [r1, r2] {
        S::assume(ge(r, S::c(0.05)));
    }
    S::assume(gt(d, S::c(0.05)));
    for r in [r1, r2] {
        S::assume(le(r, S::c(100.0)));
    }
    let c2 = c1 + n.scale(d);
    let e = if S::SYM { S::c(1e-6) } else { eps::<S>() };
    S::assume(gt(d, e + e));
    let far = e * S::c(if S::SYM { 20.0 } else { 2.0 });
    let df = num_traits::real::Real::abs(r1 - r2);
    let cross2 = S::and(vec![lt(d, r1 + r2), gt(d, df)]);
    match circle_circle_intr(r1, c1, r2, c2, e) {
        CircleCircleIntr::TwoIntersects { point1, point2 } => {
            S::ensure("only crossing circles cut twice", S::and(vec![le(d, r1 + r2), ge(d, df)]));
            for p in [point1, point2] {
                S::ensure("on both circles", S::and(vec![eq(d2(p, c1), r1 * r1), eq(d2(p, c2), r2 * r2)]));
            }
            S::ensure("mirror images", S::and(vec![eq(dot(point1 - point2, n), S::zero()), vfar(point1, point2, e / S::two())]));
        }
        CircleCircleIntr::TangentIntersect { point } => {
            // along the line of centres, at the radius from either centre
            let a = dot(point - c1, n);
            S::ensure("on the line of centres", vnear(point, c1 + n.scale(a), e + e));
            let t = if !S::SYM { far * (S::one() + (r1 + r2) / d) } else { S::c(5e-2) };
            S::ensure("at the radius of the first", S::or(vec![S::near(a, r1, t), S::near(a, -r1, t)]));
            S::ensure("at the radius of the second", S::or(vec![S::near(a - d, r2, t), S::near(a - d, -r2, t)]));
            S::ensure(
                "only nearly tangent circles",
                S::or(vec![S::near(d, r1 + r2, far), S::near(d, df, far)]),
            );
        }
        CircleCircleIntr::NoIntersect => S::ensure("no crossing is lost", S::not(cross2)),
        CircleCircleIntr::Overlapping => S::ensure("distinct centres never overlap", S::tru(false)),
    }
}
fn cc_concentric<S: Sc>() {
    let c = v2::<S>("c", 10.0);
    let (r1, r2) = (S::inp("r1", 0.1, 10.0), S::inp("r2", 0.1, 10.0));
    for r in [r1, r2] {
        S::assume(ge(r, S::c(0.05)));
    }
    let e = eps::<S>();
    match S::choose("same", 2) {
        0 => {
            let r = circle_circle_intr(r1, c, r1, c, e);
            S::ensure("equal circles overlap", S::tru(matches!(r, CircleCircleIntr::Overlapping)));
        }
        _ => {
            S::assume(gt((r1 - r2) * (r1 - r2), S::c(4.0) * e * e));
            let r = circle_circle_intr(r1, c, r2, c, e);
            S::ensure("concentric circles miss", S::tru(matches!(r, CircleCircleIntr::NoIntersect)));
        }
    }
}

// ---- line and arc segments

pub fn points<S: Sc>(r: &PlineSegIntr<S>) -> Vec<Vector2<S>> {
    match *r {
        PlineSegIntr::NoIntersect => vec![],
        PlineSegIntr::TangentIntersect { point } | PlineSegIntr::OneIntersect { point } => vec![point],
        PlineSegIntr::TwoIntersects { point1, point2 }
        | PlineSegIntr::OverlappingLines { point1, point2 }
        | PlineSegIntr::OverlappingArcs { point1, point2 } => vec![point1, point2],
    }
}
/// p lies on the arc up to tol
pub fn on_arc<S: Sc>(a: &Arc<S>, p: Vector2<S>, tol: f64) -> S::B {
    let sg = if a.b < S::zero() { -S::one() } else { S::one() };
    let t = S::c(tol);
    let o = p - a.c;
    S::and(vec![
        S::near(dot(o, o), a.r * a.r, t * (a.r + S::one())),
        ge(sg * cross(a.v1.pos() - a.c, o), -t),
        ge(sg * cross(o, a.v2.pos() - a.c), -t),
    ])
}
/// p lies on the segment from s along v, up to tol
pub fn on_seg<S: Sc>(s: Vector2<S>, v: Vector2<S>, p: Vector2<S>, tol: f64) -> S::B {
    let t = S::c(tol);
    let o = p - s;
    let l2 = dot(v, v) + S::one();
    S::and(vec![S::near(cross(v, o), S::zero(), t * l2), ge(dot(v, o), -t * l2), le(dot(v, o), dot(v, v) + t * l2)])
}
/// a line through a point of an arc: the point is found; every point found is on both
fn la_found<S: Sc>() {
    let a = arc::<S>("a");
    let (q, _) = arc_point(&a, "tau");
    let v = v2::<S>("v", 10.0);
    let t = S::inp("t", 0.0, 1.0);
    S::assume(inside01(t));
    not_small(v, 0.1);
    // not nearly tangent
    let tn = dot(v, q - a.c);
    S::assume(gt(tn * tn, S::c(4e-4) * a.r * a.r * dot(v, v)));
    let p0 = q - v.scale(t);
    let e = S::c(1e-6);
    let line_first = S::choose("first", 2) == 0;
    let (l1, l2) = (vtx(p0), vtx(p0 + v));
    let r = if line_first { pline_seg_intr(l1, l2, a.v1, a.v2, e) } else { pline_seg_intr(a.v1, a.v2, l1, l2, e) };
    let ps = points(&r);
    S::ensure("a common point is found", S::or(ps.iter().map(|p| vnear(*p, q, S::c(1e-2))).collect()));
    for p in ps {
        S::ensure_tol("points found are on the line", on_seg(p0, v, p, 1e-4), 1e-4);
        S::ensure_tol("points found are on the arc", on_arc(&a, p, 1e-4), 1e-4);
    }
}
/// any line segment and arc: every reported point is on both
fn la_sound<S: Sc>() {
    let a = arc::<S>("a");
    let p0 = a.c + v2::<S>("p", 12.0);
    let v = v2::<S>("v", 20.0);
    not_small(v, 0.1);
    let e = S::c(1e-6);
    let line_first = S::choose("first", 2) == 0;
    let (l1, l2) = (vtx(p0), vtx(p0 + v));
    let r = if line_first { pline_seg_intr(l1, l2, a.v1, a.v2, e) } else { pline_seg_intr(a.v1, a.v2, l1, l2, e) };
    for p in points(&r) {
        S::ensure_tol("points found are on the line", on_seg(p0, v, p, 1e-3), 1e-3);
        S::ensure_tol("points found are on the arc", on_arc(&a, p, 1e-3), 1e-3);
    }
    if let PlineSegIntr::TwoIntersects { point1, point2 } = r {
        if line_first {
            // along the second segment, which is the arc
            S::ensure_tol("ordered along the second segment", le(d2(point1, a.v1.pos()), d2(point2, a.v1.pos()) + S::c(1e-3)), 1e-3);
        } else {
            S::ensure_tol("ordered along the second segment", le(d2(point1, p0), d2(point2, p0) + S::c(1e-3)), 1e-3);
        }
    }
}
/// two arcs through a common point
fn aa_found<S: Sc>() {
    let a = arc::<S>("a");
    let (q, _) = arc_point(&a, "tau");
    // the second arc: centre from q, radius r2, passes through q at its parameter t2
    let r2 = S::inp("r2", 0.1, 10.0);
    S::assume(ge(r2, S::c(0.05)));
    let w = unit::<S>("w");
    let b0 = S::inp("b2", 0.0, 1.0);
    S::assume(S::within(S::c(1e-2), b0, S::one()));
    let f = S::inp("f", 0.0, 1.0);
    S::assume(S::within(S::zero(), f, b0));
    let neg = S::choose("cw2", 2) == 1;
    let sg = if neg { -S::one() } else { S::one() };
    let (b, t) = (b0 * sg, f * sg);
    let c2 = q - rot4(w, t).scale(r2);
    let (s, e) = (c2 + w.scale(r2), c2 + rot4(w, b).scale(r2));
    let eps = S::c(1e-6);
    // not nearly tangent there
    let tn = cross(q - a.c, q - c2);
    let m = S::c(2e-2) * a.r * r2;
    S::assume(S::or(vec![gt(tn, m), lt(tn, -m)]));
    let r = pline_seg_intr(a.v1, a.v2, PlineVertex::new(s.x, s.y, b), vtx(e), eps);
    let ps = points(&r);
    S::ensure("a common point is found", S::or(ps.iter().map(|p| vnear(*p, q, S::c(1e-2))).collect()));
    let a2 = Arc { v1: PlineVertex::new(s.x, s.y, b), v2: vtx(e), c: c2, r: r2, w, b, th: S::zero(), phi: S::zero() };
    for p in ps {
        S::ensure_tol("points found are on the first", on_arc(&a, p, 1e-3), 1e-3);
        S::ensure_tol("points found are on the second", on_arc(&a2, p, 1e-3), 1e-3);
    }
}
fn aa_sound<S: Sc>() {
    let a = arc::<S>("a");
    let a2 = arc_at::<S>("e", a.c + v2::<S>("o", 8.0));
    let r = pline_seg_intr(a.v1, a.v2, a2.v1, a2.v2, S::c(1e-6));
    for p in points(&r) {
        S::ensure_tol("points found are on the first", on_arc(&a, p, 1e-2), 1e-2);
        S::ensure_tol("points found are on the second", on_arc(&a2, p, 1e-2), 1e-2);
    }
    if let PlineSegIntr::TwoIntersects { point1, point2 } = r {
        S::ensure("ordered along the second segment", le(d2(point1, a2.v1.pos()), d2(point2, a2.v1.pos())));
    }
}
/// arcs of one circle: overlap is the common part
fn aa_overlap<S: Sc>() {
    let a = arc::<S>("a");
    // second arc starts at parameter x (quarter tangent) from the start of the first
    let x = S::inp("x", -1.0, 1.0);
    S::assume(S::within(S::c(-1.0), x, S::one()));
    let y0 = S::inp("y", 0.0, 1.0);
    S::assume(S::within(S::c(2e-2), y0, S::c(0.99)));
    let ab = num_traits::real::Real::abs(a.b);
    S::assume(S::within(S::c(2e-2), ab, S::c(0.99)));
    let same = S::choose("same", 2) == 0;
    let sg = if a.b < S::zero() { -S::one() } else { S::one() };
    let one = S::one();
    // in the direction of the first arc: positions 0..ab (first), x .. x(+)y0 (second)
    let (xs, ys) = (x * sg, y0 * sg);
    let s_dir = rot4(a.w, xs);
    let e_dir = rot4(s_dir, ys);
    let (s, e) = (a.c + s_dir.scale(a.r), a.c + e_dir.scale(a.r));
    let eps = S::c(1e-6);
    let (st, en, b2) = if same { (s, e, ys) } else { (e, s, -ys) };
    let (a1, z1) = (a.v1.pos(), a.v2.pos());
    let m = S::c(1e-2);
    for (p, q) in [(s, a1), (s, z1), (e, a1), (e, z1)] {
        S::assume(vfar(p, q, m * a.r));
    }
    // is direction d strictly inside the arc from p turning by less than half a turn to q
    let inside = |p: Vector2<S>, q: Vector2<S>, d: Vector2<S>| S::and(vec![gt(sg * cross(p, d), S::zero()), gt(sg * cross(d, q), S::zero())]);
    let w_end = rot4(a.w, a.b);
    let s_in = inside(a.w, w_end, s_dir);
    let e_in = inside(a.w, w_end, e_dir);
    let a_in = inside(s_dir, e_dir, a.w);
    let z_in = inside(s_dir, e_dir, w_end);
    let _ = one;
    let r = pline_seg_intr(a.v1, a.v2, PlineVertex::new(st.x, st.y, b2), vtx(en), eps);
    let any = S::or(vec![s_in.clone(), e_in.clone(), a_in.clone(), z_in.clone()]);
    match r {
        PlineSegIntr::OverlappingArcs { point1, point2 } => {
            S::ensure("overlap only when arcs share a part", any);
            let (f, l) = if same { (point1, point2) } else { (point2, point1) };
            let t = S::c(1e-3) * a.r;
            // first common point: s when it is inside the first arc, else the start of the first
            S::ensure("start of the overlap", S::and(vec![S::imp(s_in.clone(), vnear(f, s, t)), S::imp(S::not(s_in), vnear(f, a1, t))]));
            S::ensure("end of the overlap", S::and(vec![S::imp(e_in.clone(), vnear(l, e, t)), S::imp(S::not(e_in), vnear(l, z1, t))]));
        }
        PlineSegIntr::NoIntersect => S::ensure("no shared part is lost", S::not(any)),
        _ => S::ensure("overlap or nothing", S::tru(false)),
    }
}
/// arcs of one circle that only touch at their ends
fn aa_touch<S: Sc>() {
    let a = arc::<S>("a");
    let ab = num_traits::real::Real::abs(a.b);
    S::assume(S::within(S::c(2e-2), ab, S::c(0.9)));
    let y0 = S::inp("y", 0.0, 1.0);
    S::assume(S::within(S::c(2e-2), y0, S::c(0.9)));
    let sg = if a.b < S::zero() { -S::one() } else { S::one() };
    let same = S::choose("same", 2) == 0;
    let before = S::choose("before", 2) == 1;
    let w_end = rot4(a.w, a.b);
    let (s_dir, e_dir) = if before { (rot4(a.w, -y0 * sg), a.w) } else { (w_end, rot4(w_end, y0 * sg)) };
    // the far ends do not touch
    let far = if before { (s_dir, w_end) } else { (e_dir, a.w) };
    S::assume(vfar(far.0, far.1, S::c(1e-2)));
    let (s, e) = (a.c + s_dir.scale(a.r), a.c + e_dir.scale(a.r));
    let (st, en, b2) = if same { (s, e, y0 * sg) } else { (e, s, -y0 * sg) };
    let r = pline_seg_intr(a.v1, a.v2, PlineVertex::new(st.x, st.y, b2), vtx(en), S::c(1e-6));
    let touch = if before { a.v1.pos() } else { a.v2.pos() };
    match r {
        PlineSegIntr::OneIntersect { point } => S::ensure("the shared end", vnear(point, touch, S::c(1e-3))),
        _ => S::ensure("one shared end", S::tru(false)),
    }
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "ll_cross", "line_line_intr, pline_seg_intr", "", ll_cross);
    contract!(v, "ll_parallel", "line_line_intr, pline_seg_intr", "", ll_parallel);
    contract!(v, "ll_collinear", "line_line_intr, pline_seg_intr", "", ll_collinear, 3);
    contract!(v, "ll_points", "line_line_intr", "", ll_points, 2);
    contract!(v, "lc_two", "line_circle_intr", "", lc_two, 4);
    contract!(v, "lc_none", "line_circle_intr", "", lc_none, 8);
    contract!(v, "lc_point", "line_circle_intr", "", lc_point);
    contract!(v, "cc", "circle_circle_intr", "", cc, 4);
    contract!(v, "cc_concentric", "circle_circle_intr", "", cc_concentric, 2);
    contract!(v, "la_found", "pline_seg_intr", "", la_found, 8);
    contract!(v, "la_sound", "pline_seg_intr", "", la_sound, 8);
    contract!(v, "aa_found", "pline_seg_intr", "", aa_found, 8);
    contract!(v, "aa_sound", "pline_seg_intr", "", aa_sound, 8);
    contract!(v, "aa_overlap", "pline_seg_intr", "", aa_overlap, 8);
    contract!(v, "aa_touch", "pline_seg_intr", "", aa_touch, 8);
}
