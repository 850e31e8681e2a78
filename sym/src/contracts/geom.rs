//! Scalar, angle, vector and single segment geometry.
use super::basics::*;
use super::intr::eps;
use crate::contract;
use crate::run::Contract;
use crate::sc::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

pub fn k<S: Sc>(n: i32) -> S {
    S::c(n as f64)
}
pub fn cross<S: Sc>(a: Vector2<S>, b: Vector2<S>) -> S {
    a.x * b.y - a.y * b.x
}
pub fn dot<S: Sc>(a: Vector2<S>, b: Vector2<S>) -> S {
    a.x * b.x + a.y * b.y
}
pub fn d2<S: Sc>(a: Vector2<S>, b: Vector2<S>) -> S {
    let v = Vector2::new(a.x - b.x, a.y - b.y);
    dot(v, v)
}
pub fn veq<S: Sc>(a: Vector2<S>, b: Vector2<S>) -> S::B {
    S::and(vec![eq(a.x, b.x), eq(a.y, b.y)])
}
pub fn vtx_eq<S: Sc>(a: PlineVertex<S>, b: PlineVertex<S>) -> S::B {
    S::and(vec![eq(a.x, b.x), eq(a.y, b.y), eq(a.bulge, b.bulge)])
}
/// both coordinates differ by less than tol
pub fn vnear<S: Sc>(a: Vector2<S>, b: Vector2<S>, tol: S) -> S::B {
    S::and(vec![lt(a.x - b.x, tol), lt(b.x - a.x, tol), lt(a.y - b.y, tol), lt(b.y - a.y, tol)])
}
pub fn vfar<S: Sc>(a: Vector2<S>, b: Vector2<S>, tol: S) -> S::B {
    S::or(vec![gt(a.x - b.x, tol), gt(b.x - a.x, tol), gt(a.y - b.y, tol), gt(b.y - a.y, tol)])
}
fn congruent<S: Sc>(a: S, b: S, n: i32) -> S::B {
    S::or((-n..=n).map(|i| eq(a - b, S::tau() * k::<S>(i))).collect())
}
fn angle_in<S: Sc>(n: &str) -> S {
    let a = S::inp(n, -3.2, 3.2);
    S::assume(S::within(-S::pi(), a, S::pi()));
    a
}

fn normalize<S: Sc>() {
    let x = S::inp("x", -18.0, 24.0);
    S::assume(S::within(-S::tau() * k(3), x, S::tau() * S::c(3.5)));
    let r = normalize_radians(x);
    S::ensure("result in [0, 2pi]", S::within(S::zero(), r, S::tau()));
    S::ensure("same direction", congruent(r, x, 4));
}
fn delta<S: Sc>() {
    let a = S::inp("a", -6.0, 6.0);
    let b = S::inp("b", -6.0, 6.0);
    S::assume(S::within(-S::tau(), a, S::tau()));
    S::assume(S::within(-S::tau(), b, S::tau()));
    let r = delta_angle(a, b);
    S::ensure("at most half a turn", S::and(vec![ge(r, -S::pi()), le(r, S::pi())]));
    S::ensure("reaches the second angle", congruent(a + r, b, 4));
    let neg = S::choose("neg", 2) == 1;
    let s = delta_angle_signed(a, b, neg);
    S::ensure("requested sense", if neg { le(s, S::zero()) } else { ge(s, S::zero()) });
    S::ensure("same size", eq(s * s, r * r));
}
fn between<S: Sc>() {
    let s = angle_in::<S>("s");
    let w = angle_in::<S>("w");
    let x = S::inp("x", 0.0, 3.2);
    S::assume(ge(x, S::zero()));
    let cw = w < S::zero();
    let len = if cw { -w } else { w };
    let sgn = if cw { -S::one() } else { S::one() };
    let e = S::c(1e-6);
    if S::choose("inside", 2) == 0 {
        S::assume(S::and(vec![ge(x, e), le(x, len - e)]));
        S::ensure("angles of the sweep are inside", S::tru(angle_is_within_sweep(s + x * sgn, s, w)));
        let (a, b) = if cw { (s + w, s) } else { (s, s + w) };
        S::ensure("between agrees", S::tru(angle_is_between(s + x * sgn, a, b)));
    } else {
        S::assume(S::and(vec![gt(x, len + S::c(1e-6)), lt(x, S::tau() - S::c(1e-6))]));
        S::ensure("other angles are outside", S::tru(!angle_is_within_sweep(s + x * sgn, s, w)));
    }
}
fn bulge_angle<S: Sc>() {
    let b = S::inp("b", -1.0, 1.0);
    S::ensure("bulge of the angle of a bulge", eq(bulge_from_angle(angle_from_bulge(b)), b));
    S::ensure("angle is four arctangents", eq(angle_from_bulge(b), k::<S>(4) * b.atan()));
    S::ensure("half turn", eq(bulge_from_angle(S::pi()), S::one()));
    S::ensure("half turn back", eq(bulge_from_angle(-S::pi()), -S::one()));
    S::ensure("straight", eq(bulge_from_angle(S::zero()), S::zero()));
}
fn quadratic<S: Sc>() {
    let a = S::inp("a", -3.0, 3.0);
    let b = S::inp("b", -3.0, 3.0);
    let q = S::inp("q", 0.0, 3.0);
    // c is chosen through the root of the discriminant
    S::assume(S::and(vec![S::or(vec![gt(a, S::c(0.01)), lt(a, S::c(-0.01))]), ge(q, S::zero())]));
    let c = (b * b - q * q) / (k::<S>(4) * a);
    S::assume(S::or(vec![gt(b, S::c(0.01)), lt(b, S::c(-0.01)), gt(q, S::c(0.01))]));
    let (s1, s2) = quadratic_solutions(a, b, c, q);
    S::ensure("roots", S::and(vec![eq(a * s1 * s1 + b * s1 + c, S::zero()), eq(a * s2 * s2 + b * s2 + c, S::zero())]));
    S::ensure("both roots", eq((s1 + s2) * a, -b));
}
fn sides<S: Sc>() {
    let p0 = v2::<S>("p0", 10.0);
    let p1 = p0 + v2::<S>("v", 10.0);
    let q = p0 + v2::<S>("q", 10.0);
    let c = cross(p1 - p0, q - p0);
    let z = S::zero();
    let e = S::fuzzy_epsilon();
    // rounding decides exact zeros
    if !S::SYM {
        let g = S::c(1e-9);
        S::assume(S::or(vec![gt(c, g), lt(c, -g)]));
        S::assume(S::or(vec![gt(c, e + g), lt(c, e - g)]));
        S::assume(S::or(vec![gt(c, g - e), lt(c, -e - g)]));
    }
    S::ensure("left", S::iff(S::tru(is_left(p0, p1, q)), gt(c, z)));
    S::ensure("left or on", S::iff(S::tru(is_left_or_equal(p0, p1, q)), ge(c, z)));
    S::ensure("left or nearly on", S::iff(S::tru(is_left_or_coincident(p0, p1, q)), gt(c, -e)));
    S::ensure("right or nearly on", S::iff(S::tru(is_right_or_coincident(p0, p1, q)), lt(c, e)));
}
fn sector<S: Sc>() {
    // the sector test of an arc centred at c
    let a = arc::<S>("a");
    let p = a.c + v2::<S>("p", 12.0);
    let (s, e) = (a.v1.pos(), a.v2.pos());
    let cw = a.b < S::zero();
    let m = eps::<S>();
    let r = point_within_arc_sweep(a.c, s, e, cw, p, m);
    let sg = if cw { -S::one() } else { S::one() };
    let (c1, c2) = (sg * cross(s - a.c, p - a.c), sg * cross(p - a.c, e - a.c));
    S::ensure("points of the sector are accepted", S::imp(S::and(vec![ge(c1, S::zero()), ge(c2, S::zero())]), S::tru(r)));
    S::ensure("points away from the sector are rejected", S::imp(S::or(vec![lt(c1, -m), lt(c2, -m)]), S::tru(!r)));
}
fn parametric<S: Sc>() {
    let p0 = v2::<S>("p0", 10.0);
    let v = v2::<S>("v", 10.0);
    S::assume(S::or(vec![gt(v.x * v.x, S::c(1e-8)), gt(v.y * v.y, S::c(1e-8))]));
    let t = S::inp("t", -2.0, 2.0);
    let p1 = p0 + v;
    let q = point_from_parametric(p0, p1, t);
    S::ensure("point", veq(q, Vector2::new(p0.x + t * v.x, p0.y + t * v.y)));
    S::ensure("inverse", eq(parametric_from_point(p0, p1, q, S::fuzzy_epsilon()), t));
    S::ensure("midpoint", veq(midpoint(p0, p1), Vector2::new(p0.x + v.x / S::two(), p0.y + v.y / S::two())));
    S::ensure("distance", eq(dist_squared(p0, p1), v.x * v.x + v.y * v.y));
}
fn circle_point<S: Sc>() {
    let c = v2::<S>("c", 10.0);
    let r = S::inp("r", 0.0, 10.0);
    let a = S::inp("a", -6.0, 6.0);
    let p = point_on_circle(r, c, a);
    S::ensure("on circle", eq(d2(p, c), r * r));
    let (s, co) = a.sin_cos();
    S::ensure("direction", veq(p, Vector2::new(c.x + r * co, c.y + r * s)));
    let o = v2::<S>("o", 10.0);
    let q = v2::<S>("q", 10.0);
    let t = q.rotate_about(o, a);
    let u = q - o;
    S::ensure("rotation", veq(t - o, Vector2::new(u.x * co - u.y * s, u.x * s + u.y * co)));
}
fn vectors<S: Sc>() {
    let a = v2::<S>("a", 10.0);
    let b = v2::<S>("b", 10.0);
    let f = S::inp("f", -3.0, 3.0);
    S::ensure("dot", eq(a.dot(b), a.x * b.x + a.y * b.y));
    S::ensure("perp dot", eq(a.perp_dot(b), a.x * b.y - a.y * b.x));
    S::ensure("perp", veq(a.perp(), Vector2::new(-a.y, a.x)));
    S::ensure("scale", veq(a.scale(f), Vector2::new(a.x * f, a.y * f)));
    S::ensure("ops", veq(a + b - a, b));
    S::assume(gt(dot(a, a), S::c(1e-8)));
    S::ensure("length", S::and(vec![eq(a.length() * a.length(), dot(a, a)), ge(a.length(), S::zero())]));
    let n = a.normalize();
    S::ensure("normalized", S::and(vec![eq(dot(n, n), S::one()), eq(cross(n, a), S::zero()), gt(dot(n, a), S::zero())]));
    let u = a.unit_perp();
    S::ensure("unit perp", S::and(vec![eq(dot(u, u), S::one()), eq(dot(u, a), S::zero()), gt(cross(a, u), S::zero())]));
}

// ---- arcs

fn arc_center<S: Sc>() {
    let a = arc::<S>("a");
    let (r, c) = seg_arc_radius_and_center(a.v1, a.v2);
    S::ensure("radius", eq(r, a.r));
    S::ensure("centre", veq(c, a.c));
}
fn arc_length_mid<S: Sc>() {
    let a = arc::<S>("a");
    let ph = if a.b < S::zero() { -a.phi } else { a.phi };
    S::ensure("length is radius times sweep", eq(seg_length(a.v1, a.v2), a.r * S::four() * ph));
    let m = seg_midpoint(a.v1, a.v2);
    let t = num_traits::real::Real::sqrt(S::one() + a.b * a.b);
    let h = a.b / (S::one() + t);
    let q = a.c + rot4(a.w, h).scale(a.r);
    S::ensure("midpoint halves the sweep", veq(m, q));
}
fn line_length_mid<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let v = v2::<S>("v", 10.0);
    let q = p + v;
    let (a, b) = (PlineVertex::new(p.x, p.y, S::zero()), PlineVertex::new(q.x, q.y, S::inp("b2", -1.0, 1.0)));
    S::assume(vfar(p, q, S::c(1e-7)));
    let l = seg_length(a, b);
    S::ensure("length", S::and(vec![ge(l, S::zero()), eq(l * l, dot(v, v))]));
    S::ensure("midpoint", veq(seg_midpoint(a, b), Vector2::new(p.x + v.x / S::two(), p.y + v.y / S::two())));
    let m = v2::<S>("m", 10.0);
    S::ensure("tangent", veq(seg_tangent_vector(a, b, m), v));
}
fn arc_tangent<S: Sc>() {
    let a = arc::<S>("a");
    let (q, _) = arc_point(&a, "tau");
    let t = seg_tangent_vector(a.v1, a.v2, q);
    let rad = q - a.c;
    S::ensure("perpendicular to the radius", eq(dot(t, rad), S::zero()));
    let sg = if a.b < S::zero() { -S::one() } else { S::one() };
    S::ensure("in the direction of travel", gt(sg * cross(rad, t), S::zero()));
}
fn arc_split<S: Sc>() {
    let a = arc::<S>("a");
    let (q, t) = arc_point(&a, "tau");
    let e = eps::<S>();
    S::assume(vfar(q, a.v1.pos(), e));
    S::assume(vfar(q, a.v2.pos(), e));
    S::assume(vfar(a.v1.pos(), a.v2.pos(), e));
    let s = seg_split_at_point(a.v1, a.v2, q, e);
    S::ensure("first part starts at the start", veq(s.updated_start.pos(), a.v1.pos()));
    S::ensure("second part starts at the point", veq(s.split_vertex.pos(), q));
    S::ensure_tol("first part follows the arc", eq(s.updated_start.bulge, t), 1e-5);
    let t2 = (a.b - t) / (S::one() + a.b * t);
    S::ensure_tol("second part follows the arc", eq(s.split_vertex.bulge, t2), 1e-5);
}
fn split_ends<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let v = v2::<S>("v", 10.0);
    let b = S::inp("b", -1.0, 1.0);
    S::assume(S::within(-S::one(), b, S::one()));
    let e = eps::<S>();
    let q2 = p + v;
    S::assume(vfar(p, q2, e * S::c(3.0)));
    let (a, z) = (PlineVertex::new(p.x, p.y, b), PlineVertex::new(q2.x, q2.y, S::zero()));
    let (ox, oy) = (S::inp("ox", -1.0, 1.0), S::inp("oy", -1.0, 1.0));
    let o = Vector2::new(ox * e, oy * e);
    S::assume(S::and(vec![lt(o.x, e), lt(-o.x, e), lt(o.y, e), lt(-o.y, e)]));
    if S::choose("end", 2) == 0 {
        let q = p + o;
        let s = seg_split_at_point(a, z, q, e);
        S::ensure("at the start: the rest keeps the bulge", veq(s.split_vertex.pos(), q));
        // a line stays a line
        S::ensure("at the start: nothing left before", S::and(vec![S::or(vec![eq(s.updated_start.bulge, S::zero()), eq(s.updated_start.bulge, b)])]));
        S::ensure("at the start: bulge", S::imp(S::or(vec![gt(b, S::c(1e-6)), lt(b, S::c(-1e-6))]), S::and(vec![eq(s.updated_start.bulge, S::zero()), eq(s.split_vertex.bulge, b), veq(s.updated_start.pos(), q)])));
    } else {
        let q = q2 + o;
        let s = seg_split_at_point(a, z, q, e);
        S::ensure("at the end: start keeps the bulge", vtx_eq(s.updated_start, a));
        S::ensure("at the end: nothing left after", eq(s.split_vertex.bulge, S::zero()));
        S::ensure("at the end: position", vnear(s.split_vertex.pos(), q2, e + e));
    }
}
fn line_split<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let v = v2::<S>("v", 10.0);
    let t = S::inp("t", 0.0, 1.0);
    let (a, b) = (PlineVertex::new(p.x, p.y, S::zero()), PlineVertex::new(p.x + v.x, p.y + v.y, S::inp("b2", -1.0, 1.0)));
    let q = p + v.scale(t);
    let s = seg_split_at_point(a, b, q, S::c(1e-5));
    S::ensure("parts", S::and(vec![vtx_eq(s.updated_start, a), veq(s.split_vertex.pos(), q), eq(s.split_vertex.bulge, S::zero())]));
}

// ---- boxes

fn min2<S: Sc>(a: S, b: S) -> S {
    if a < b { a } else { b }
}
fn max2<S: Sc>(a: S, b: S) -> S {
    if a < b { b } else { a }
}
/// is_min(m, xs): m is the least of xs
pub fn is_min<S: Sc>(m: S, xs: &[S]) -> S::B {
    S::and(vec![
        S::and(xs.iter().map(|x| le(m, *x)).collect()),
        S::or(xs.iter().map(|x| eq(m, *x)).collect()),
    ])
}
pub fn is_max<S: Sc>(m: S, xs: &[S]) -> S::B {
    S::and(vec![
        S::and(xs.iter().map(|x| ge(m, *x)).collect()),
        S::or(xs.iter().map(|x| eq(m, *x)).collect()),
    ])
}
fn line_boxes<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let q = p + v2::<S>("v", 10.0);
    let (a, b) = (PlineVertex::new(p.x, p.y, S::zero()), PlineVertex::new(q.x, q.y, S::inp("b2", -1.0, 1.0)));
    for bb in [seg_bounding_box(a, b), seg_fast_approx_bounding_box(a, b)] {
        S::ensure("x", S::and(vec![is_min(bb.min_x, &[p.x, q.x]), is_max(bb.max_x, &[p.x, q.x])]));
        S::ensure("y", S::and(vec![is_min(bb.min_y, &[p.y, q.y]), is_max(bb.max_y, &[p.y, q.y])]));
    }
}
/// the exact box of an arc: an axis direction belongs to it exactly when the arc sweeps over it
fn arc_box<S: Sc>() {
    let a = arc::<S>("a");
    let (s, e) = (a.v1.pos(), a.v2.pos());
    let bb = seg_bounding_box(a.v1, a.v2);
    let cw = a.b < S::zero();
    let sg = if cw { -S::one() } else { S::one() };
    let (us, ue) = (a.w, rot4(a.w, a.b));
    let m = S::c(1e-6);
    let z = S::zero();
    for (name, u, got, full, ends) in [
        ("left", Vector2::new(-S::one(), z), bb.min_x, a.c.x - a.r, -max2(-s.x, -e.x)),
        ("right", Vector2::new(S::one(), z), bb.max_x, a.c.x + a.r, max2(s.x, e.x)),
        ("bottom", Vector2::new(z, -S::one()), bb.min_y, a.c.y - a.r, min2(s.y, e.y)),
        ("top", Vector2::new(z, S::one()), bb.max_y, a.c.y + a.r, max2(s.y, e.y)),
    ] {
        let (c1, c2) = (sg * cross(us, u), sg * cross(u, ue));
        let inside = S::and(vec![gt(c1, z), gt(c2, z)]);
        let outside = S::or(vec![lt(c1, -m), lt(c2, -m)]);
        S::ensure(&format!("{name} when swept over"), S::imp(inside, eq(got, full)));
        S::ensure(&format!("{name} when not swept over"), S::imp(outside, eq(got, ends)));
    }
}
fn fast_box<S: Sc>() {
    let p = v2::<S>("p", 10.0);
    let v = v2::<S>("v", 10.0);
    let q = p + v;
    let b = S::inp("b", -1.0, 1.0);
    S::assume(S::within(-S::one(), b, S::one()));
    S::assume(S::or(vec![gt(b, S::c(1e-6)), lt(b, S::c(-1e-6))]));
    let bb = seg_fast_approx_bounding_box(PlineVertex::new(p.x, p.y, b), PlineVertex::new(q.x, q.y, S::zero()));
    // chord rectangle: the sagitta is b * chord / 2 to the right of the chord
    let o = Vector2::new(b * v.y / S::two(), -b * v.x / S::two());
    let xs = [p.x, q.x, p.x + o.x, q.x + o.x];
    let ys = [p.y, q.y, p.y + o.y, q.y + o.y];
    S::ensure("x", S::and(vec![is_min(bb.min_x, &xs), is_max(bb.max_x, &xs)]));
    S::ensure("y", S::and(vec![is_min(bb.min_y, &ys), is_max(bb.max_y, &ys)]));
}
/// lemma (no code): an arc with |b| <= 1 lies in the rectangle of its chord and sagitta
fn sagitta_lemma<S: Sc>() {
    let b = S::inp("b", 0.0, 1.0);
    let t = S::inp("t", 0.0, 1.0);
    S::assume(S::and(vec![ge(b, S::zero()), le(b, S::one()), ge(t, S::zero()), le(t, b)]));
    // start direction (1, 0), centre (0, 0), radius 1
    let w = Vector2::new(S::one(), S::zero());
    let (e, q) = (rot4(w, b), rot4(w, t));
    let v = e - w;
    let o = Vector2::new(b * v.y / S::two(), -b * v.x / S::two());
    let r = q - w;
    S::ensure("along the chord", S::and(vec![ge(dot(r, v), S::zero()), le(dot(r, v), dot(v, v))]));
    S::ensure("across the chord", S::and(vec![ge(dot(r, o), S::zero()), le(dot(r, o), dot(o, o))]));
}

// ---- closest points

fn line_closest<S: Sc>() {
    let p0 = v2::<S>("p0", 10.0);
    let v = v2::<S>("v", 10.0);
    let p1 = p0 + v;
    let q = p0 + v2::<S>("q", 10.0);
    let t = S::inp("t", 0.0, 1.0);
    S::assume(S::within(S::zero(), t, S::one()));
    let r = line_seg_closest_point(p0, p1, q);
    let on = p0 + v.scale(t);
    let tol = S::two() * S::fuzzy_epsilon();
    S::ensure("no segment point is nearer", le(d2(r, q), d2(on, q) + tol));
    S::ensure("on the segment", S::and(vec![eq(cross(r - p0, v), S::zero()), ge(dot(r - p0, v), S::zero()), le(dot(r - p0, v), dot(v, v))]));
    let a = PlineVertex::new(p0.x, p0.y, S::zero());
    let b = PlineVertex::new(p1.x, p1.y, S::zero());
    S::ensure("segment entry point agrees", veq(seg_closest_point(a, b, q, S::fuzzy_epsilon()), r));
}
fn arc_closest<S: Sc>() {
    let a = arc::<S>("a");
    let o = v2::<S>("o", 12.0);
    let p = a.c + o;
    let e = eps::<S>();
    let (s, t) = (a.v1.pos(), a.v2.pos());
    let r = seg_closest_point(a.v1, a.v2, p, e);
    let cw = a.b < S::zero();
    let sg = if cw { -S::one() } else { S::one() };
    let (c1, c2) = (sg * cross(s - a.c, o), sg * cross(o, t - a.c));
    let far = vfar(p, a.c, e);
    let z = S::zero();
    let m = e;
    let rad = r - a.c;
    S::ensure("on the circle", eq(d2(r, a.c), a.r * a.r));
    S::ensure(
        "facing points project radially",
        S::imp(S::and(vec![far.clone(), gt(c1, z), gt(c2, z)]), S::and(vec![eq(cross(rad, o), z), gt(dot(rad, o), z)])),
    );
    S::ensure(
        "other points go to the nearer end",
        S::imp(
            S::and(vec![far, S::or(vec![lt(c1, -m), lt(c2, -m)])]),
            S::and(vec![S::or(vec![veq(r, s), veq(r, t)]), le(d2(r, p), d2(s, p)), le(d2(r, p), d2(t, p))]),
        ),
    );
}
fn arc_closest_center<S: Sc>() {
    let a = arc::<S>("a");
    let r = seg_closest_point(a.v1, a.v2, a.c, S::fuzzy_epsilon());
    S::ensure("a point of the arc", veq(r, a.v1.pos()));
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "normalize", "normalize_radians", "angles within (-3, 3.5) turns", normalize);
    contract!(v, "delta", "delta_angle, delta_angle_signed", "angles within one turn", delta);
    contract!(v, "between", "angle_is_between, angle_is_within_sweep", "", between);
    contract!(v, "bulge_angle", "bulge_from_angle, angle_from_bulge", "", bulge_angle);
    contract!(v, "quadratic", "quadratic_solutions", "", quadratic);
    contract!(v, "sides", "is_left, is_left_or_equal, is_left_or_coincident, is_right_or_coincident", "", sides);
    contract!(v, "sector", "point_within_arc_sweep", "", sector, 8);
    contract!(v, "parametric", "point_from_parametric, parametric_from_point, midpoint, dist_squared", "", parametric);
    contract!(v, "circle_point", "point_on_circle, rotate_about", "", circle_point);
    contract!(v, "vectors", "Vector2 operations", "", vectors);
    contract!(v, "arc_center", "seg_arc_radius_and_center", "", arc_center, 8);
    contract!(v, "arc_length_mid", "seg_length, seg_midpoint", "", arc_length_mid, 8);
    contract!(v, "line_length_mid", "seg_length, seg_midpoint, seg_tangent_vector", "", line_length_mid);
    contract!(v, "arc_tangent", "seg_tangent_vector", "", arc_tangent, 8);
    contract!(v, "arc_split", "seg_split_at_point", "", arc_split, 8);
    contract!(v, "split_ends", "seg_split_at_point", "", split_ends, 2);
    contract!(v, "line_split", "seg_split_at_point", "", line_split);
    contract!(v, "line_boxes", "seg_bounding_box, seg_fast_approx_bounding_box", "", line_boxes);
    contract!(v, "arc_box", "seg_bounding_box, arc_seg_bounding_box", "", arc_box, 8);
    contract!(v, "fast_box", "seg_fast_approx_bounding_box", "", fast_box);
    contract!(v, "sagitta_lemma", "lemma about arcs", "", sagitta_lemma);
    contract!(v, "line_closest", "line_seg_closest_point, seg_closest_point", "", line_closest);
    contract!(v, "arc_closest", "seg_closest_point", "", arc_closest, 8);
    contract!(v, "arc_closest_center", "seg_closest_point", "", arc_closest_center, 8);
}
