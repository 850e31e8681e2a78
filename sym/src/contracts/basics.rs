use crate::contract;
use crate::run::Contract;
use crate::sc::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

pub fn v2<S: Sc>(n: &str, r: f64) -> Vector2<S> {
    Vector2::new(S::inp(&format!("{n}x"), -r, r), S::inp(&format!("{n}y"), -r, r))
}

fn arc_rc<S: Sc>() {
    let p1 = v2::<S>("p1", 10.0);
    let p2 = v2::<S>("p2", 10.0);
    let b = S::inp("b", -1.0, 1.0);
    let d = p2 - p1;
    S::assume(gt(d.x * d.x + d.y * d.y, S::zero()));
    S::assume(ne(b, S::zero()));
    let v1 = PlineVertex::new(p1.x, p1.y, b);
    let w2 = PlineVertex::new(p2.x, p2.y, S::zero());
    let (r, c) = seg_arc_radius_and_center(v1, w2);
    S::ensure("radius positive", gt(r, S::zero()));
    S::ensure("start on circle", eq(dist_squared(c, p1), r * r));
    S::ensure("end on circle", eq(dist_squared(c, p2), r * r));
    // tangent half angle: apex of the arc lies on the circle too
    let m = midpoint(p1, p2);
    let apex = Vector2::new(m.x + b * d.y / S::two(), m.y - b * d.x / S::two());
    S::ensure("apex on circle", eq(dist_squared(c, apex), r * r));
}

/// unit vector (all directions): four charts of the rational parametrisation
pub fn unit<S: Sc>(n: &str) -> Vector2<S> {
    let k = S::inp(&format!("{n}k"), -0.41421356, 0.41421356);
    S::assume(S::within(S::c(-0.4143), k, S::c(0.4143)));
    let m = S::one() + k * k;
    let (c, s) = ((S::one() - k * k) / m, S::two() * k / m);
    match S::choose(&format!("{n}chart"), 4) {
        0 => Vector2::new(c, s),
        1 => Vector2::new(-s, c),
        2 => Vector2::new(-c, -s),
        _ => Vector2::new(s, -c),
    }
}
/// Every arc segment: centre, radius, start direction and bulge (a complete parametrisation).
pub struct Arc<S: Sc> {
    pub v1: PlineVertex<S>,
    pub v2: PlineVertex<S>,
    pub c: Vector2<S>,
    pub r: S,
    pub w: Vector2<S>,
    pub b: S,
    /// start angle and quarter sweep
    pub th: S,
    pub phi: S,
}
/// w rotated by 4 atan(t)
pub fn rot4<S: Sc>(w: Vector2<S>, t: S) -> Vector2<S> {
    let n = S::one() + t * t;
    let (c2, s2) = ((S::one() - t * t) / n, S::two() * t / n);
    let (c4, s4) = (c2 * c2 - s2 * s2, S::two() * s2 * c2);
    Vector2::new(c4 * w.x - s4 * w.y, s4 * w.x + c4 * w.y)
}
pub fn arc<S: Sc>(n: &str) -> Arc<S> {
    let c = v2::<S>(&format!("{n}c"), 10.0);
    arc_at(n, c)
}
pub fn arc_at<S: Sc>(n: &str, c: Vector2<S>) -> Arc<S> {
    let r = S::inp_log(&format!("{n}r"), 0.05, 50.0);
    S::assume(ge(r, S::c(1e-3)));
    let w = unit::<S>(&format!("{n}dir"));
    let b0 = S::inp_log(&format!("{n}b"), 1e-4, 1.0);
    S::assume(S::within(S::c(1e-6), b0, S::one()));
    // the ends are apart
    S::assume(ge(r * b0, S::c(1e-6)));
    let b = if S::choose(&format!("{n}cw"), 2) == 0 { b0 } else { -b0 };
    let p1 = c + w.scale(r);
    let p2 = c + rot4(w, b).scale(r);
    let th = w.y.atan2(w.x);
    let phi = b.atan();
    th.know_angle();
    (th + S::four() * phi).know_angle();
    Arc { v1: PlineVertex::new(p1.x, p1.y, b), v2: PlineVertex::new(p2.x, p2.y, S::zero()), c, r, w, b, th, phi }
}
/// any point of the arc
pub fn arc_point<S: Sc>(a: &Arc<S>, n: &str) -> (Vector2<S>, S) {
    let tau = S::inp(n, 0.0, 1.0);
    S::assume(S::within(S::zero(), tau, S::one()));
    let t = if S::SYM { tau } else { tau * num_traits::real::Real::abs(a.b) };
    let neg = a.b < S::zero();
    S::assume(S::within(S::zero(), t, if neg { -a.b } else { a.b }));
    let t = if neg { -t } else { t };
    (a.th + S::four() * t.atan()).know_angle();
    (a.c + rot4(a.w, t).scale(a.r), t)
}

pub fn register(v: &mut Vec<Contract>) {
    contract!(v, "arc_radius_center", "seg_arc_radius_and_center", "", arc_rc);
}
