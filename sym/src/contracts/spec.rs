//! Concrete specification functions (f64), written from the geometry and independent of the code
//! under verification. Used by the bounded stand-ins.
use crate::sc::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

pub type V = Vector2<f64>;
pub fn v(x: f64, y: f64) -> V {
    Vector2 { x, y }
}
pub fn sub(a: V, b: V) -> V {
    v(a.x - b.x, a.y - b.y)
}
pub fn add(a: V, b: V) -> V {
    v(a.x + b.x, a.y + b.y)
}
pub fn mul(a: V, k: f64) -> V {
    v(a.x * k, a.y * k)
}
pub fn crs(a: V, b: V) -> f64 {
    a.x * b.y - a.y * b.x
}
pub fn dt(a: V, b: V) -> f64 {
    a.x * b.x + a.y * b.y
}
pub fn len(a: V) -> f64 {
    dt(a, a).sqrt()
}
pub fn dist2(a: V, b: V) -> f64 {
    len(sub(a, b))
}

/// segment from a to b, t = tan(sweep / 4)
#[derive(Clone, Copy, Debug)]
pub struct Seg {
    pub a: V,
    pub b: V,
    pub t: f64,
}
impl Seg {
    pub fn line(&self) -> bool {
        self.t == 0.0
    }
    pub fn chord(&self) -> f64 {
        dist2(self.a, self.b)
    }
    pub fn center(&self) -> V {
        let d = sub(self.b, self.a);
        let h = (1.0 - self.t * self.t) / (4.0 * self.t);
        let m = mul(add(self.a, self.b), 0.5);
        v(m.x - h * d.y, m.y + h * d.x)
    }
    pub fn radius(&self) -> f64 {
        self.chord() * (1.0 + self.t * self.t) / (4.0 * self.t.abs())
    }
    pub fn sweep(&self) -> f64 {
        4.0 * self.t.atan()
    }
    pub fn length(&self) -> f64 {
        if self.line() {
            self.chord()
        } else {
            self.radius() * self.sweep().abs()
        }
    }
    pub fn at(&self, u: f64) -> V {
        if self.line() {
            return add(self.a, mul(sub(self.b, self.a), u));
        }
        let c = self.center();
        let w = sub(self.a, c);
        let (s, k) = (self.sweep() * u).sin_cos();
        v(c.x + k * w.x - s * w.y, c.y + s * w.x + k * w.y)
    }
    /// unit tangent
    pub fn dir(&self, u: f64) -> V {
        if self.line() {
            return mul(sub(self.b, self.a), 1.0 / self.chord());
        }
        let r = sub(self.at(u), self.center());
        let k = 1.0 / len(r);
        if self.t > 0.0 {
            v(-r.y * k, r.x * k)
        } else {
            v(r.y * k, -r.x * k)
        }
    }
    /// a point of the carrier (direction from the center) belongs to the arc
    pub fn in_sweep(&self, q: V, tol: f64) -> bool {
        let c = self.center();
        let (w, z) = (sub(self.a, c), sub(q, c));
        let mut ang = crs(w, z).atan2(dt(w, z));
        let s = self.sweep();
        if s < 0.0 {
            ang = -ang;
        }
        let tol = tol / self.radius();
        if ang < -tol {
            ang += std::f64::consts::TAU;
        }
        ang <= s.abs() + tol || ang >= std::f64::consts::TAU - tol
    }
    pub fn dist(&self, q: V) -> f64 {
        if self.line() {
            let d = sub(self.b, self.a);
            let l = dt(d, d);
            let u = if l > 0.0 { (dt(sub(q, self.a), d) / l).clamp(0.0, 1.0) } else { 0.0 };
            return dist2(q, self.at(u));
        }
        let e = dist2(q, self.a).min(dist2(q, self.b));
        if self.in_sweep(q, 0.0) {
            e.min((dist2(q, self.center()) - self.radius()).abs())
        } else {
            e
        }
    }
    /// nearest point of the segment and the tangent there
    pub fn foot(&self, q: V) -> (V, V) {
        if self.line() {
            let d = sub(self.b, self.a);
            let u = (dt(sub(q, self.a), d) / dt(d, d)).clamp(0.0, 1.0);
            return (self.at(u), self.dir(0.0));
        }
        if self.in_sweep(q, 0.0) {
            let (c, r) = (self.center(), self.radius());
            let w = sub(q, c);
            let k = 1.0 / len(w).max(1e-12);
            let t = v(-w.y * k * self.t.signum(), w.x * k * self.t.signum());
            return (add(c, mul(w, r * k)), t);
        }
        if dist2(q, self.a) < dist2(q, self.b) {
            (self.a, self.dir(0.0))
        } else {
            (self.b, self.dir(1.0))
        }
    }
    /// isolated common points, `tol` widens both segments
    pub fn crossings(&self, o: &Seg, tol: f64) -> Vec<V> {
        match (self.line(), o.line()) {
            (true, true) => {
                let (d, e) = (sub(self.b, self.a), sub(o.b, o.a));
                let k = crs(d, e);
                if k.abs() < 1e-12 * (len(d) * len(e)).max(1e-12) {
                    return vec![];
                }
                let u = crs(sub(o.a, self.a), e) / k;
                let w = crs(sub(o.a, self.a), d) / k;
                let (tu, tw) = (tol / len(d), tol / len(e));
                if u >= -tu && u <= 1.0 + tu && w >= -tw && w <= 1.0 + tw {
                    vec![self.at(u)]
                } else {
                    vec![]
                }
            }
            (true, false) => {
                let d = sub(self.b, self.a);
                let f = sub(self.a, o.center());
                let (a, b, c) = (dt(d, d), 2.0 * dt(d, f), dt(f, f) - o.radius() * o.radius());
                let disc = b * b - 4.0 * a * c;
                if disc < 0.0 {
                    return vec![];
                }
                let tu = tol / len(d);
                let mut r = vec![];
                for s in [-1.0, 1.0] {
                    let u = (-b + s * disc.sqrt()) / (2.0 * a);
                    if u >= -tu && u <= 1.0 + tu && o.in_sweep(self.at(u), tol) {
                        r.push(self.at(u));
                    }
                }
                r
            }
            (false, true) => o.crossings(self, tol),
            (false, false) => {
                let (c1, c2, r1, r2) = (self.center(), o.center(), self.radius(), o.radius());
                let d = sub(c2, c1);
                let l = len(d);
                if l < 1e-9 || l > r1 + r2 || l < (r1 - r2).abs() {
                    return vec![];
                }
                let x = (l * l + r1 * r1 - r2 * r2) / (2.0 * l);
                let h = (r1 * r1 - x * x).max(0.0).sqrt();
                let n = mul(d, 1.0 / l);
                let m = add(c1, mul(n, x));
                [h, -h]
                    .iter()
                    .map(|h| v(m.x - h * n.y, m.y + h * n.x))
                    .filter(|p| self.in_sweep(*p, tol) && o.in_sweep(*p, tol))
                    .collect()
            }
        }
    }
}
pub fn segs<P: PlineSource<Num = f64> + ?Sized>(p: &P) -> Vec<Seg> {
    let w: Vec<_> = (0..p.vertex_count()).map(|i| p.at(i)).collect();
    let n = w.len();
    if n < 2 {
        return vec![];
    }
    let m = if p.is_closed() { n } else { n - 1 };
    (0..m)
        .map(|i| {
            let (x, y) = (w[i], w[(i + 1) % n]);
            Seg { a: v(x.x, x.y), b: v(y.x, y.y), t: x.bulge }
        })
        .collect()
}
pub fn dist_to(s: &[Seg], q: V) -> f64 {
    s.iter().map(|s| s.dist(q)).fold(f64::INFINITY, f64::min)
}
pub fn winding(s: &[Seg], q: V) -> i32 {
    let mut w = 0;
    for g in s {
        let (a, b) = (g.a, g.b);
        let c = crs(sub(b, a), sub(q, a));
        if a.y <= q.y && b.y > q.y && c > 0.0 {
            w += 1;
        }
        if a.y > q.y && b.y <= q.y && c < 0.0 {
            w -= 1;
        }
        if !g.line() && dist2(q, g.center()) < g.radius() {
            // a point on the chord belongs to the side on which the chord was not counted
            let right = c < 0.0 || c == 0.0 && (b.y > a.y || b.y == a.y && b.x < a.x);
            if g.t > 0.0 && right {
                w += 1;
            }
            if g.t < 0.0 && !right {
                w -= 1;
            }
        }
    }
    w
}
pub fn area_of(s: &[Seg]) -> f64 {
    let mut r = 0.0;
    for g in s {
        r += crs(g.a, g.b) / 2.0;
        if !g.line() {
            let th = g.sweep();
            r += g.radius().powi(2) * (th - th.sin()) / 2.0;
        }
    }
    r
}
/// simple, with clearance `m` between segments that are not adjacent and no sharp cusps
pub fn simple(s: &[Seg], closed: bool, m: f64, cusp: f64) -> bool {
    let n = s.len();
    for i in 0..n {
        if s[i].chord() < 10.0 * m {
            return false;
        }
        for j in i + 1..n {
            let next = j == i + 1;
            let wrap = closed && i == 0 && j == n - 1;
            if next || wrap {
                let (p, q) = if next { (i, j) } else { (j, i) };
                let (d, e) = (s[p].dir(1.0), s[q].dir(0.0));
                if dt(d, e) < -cusp && n > 2 {
                    return false;
                }
                if n == 2 && dt(d, e) < -0.999 {
                    return false;
                }
                let far = |x: &V| dist2(*x, s[p].b) > m && !(n == 2 && closed && dist2(*x, s[p].a) < m);
                if s[p].crossings(&s[q], m).iter().any(far) {
                    return false;
                }
                // points of one segment away from the shared vertex stay away from the other
                if n > 2 {
                    for k in 1..=12 {
                        let u = k as f64 / 12.0;
                        if s[q].dist(s[p].at(1.0 - u)) < m || s[p].dist(s[q].at(u)) < m {
                            return false;
                        }
                    }
                }
            } else {
                if !s[i].crossings(&s[j], m).is_empty() {
                    return false;
                }
                for k in 0..=12 {
                    let u = k as f64 / 12.0;
                    if s[j].dist(s[i].at(u)) < m || s[i].dist(s[j].at(u)) < m {
                        return false;
                    }
                }
            }
        }
    }
    true
}
pub fn num(n: &str, lo: f64, hi: f64) -> f64 {
    <f64 as Sc>::inp(n, lo, hi)
}
pub fn pick(n: &str, k: usize) -> usize {
    <f64 as Sc>::choose(n, k)
}
pub fn need(b: bool) {
    <f64 as Sc>::assume(<f64 as Sc>::tru(b))
}
pub fn must(l: &str, b: bool) {
    if !b && std::env::var("DUMP").is_ok() {
        eprintln!("FAILS: {l}");
    }
    <f64 as Sc>::ensure(l, <f64 as Sc>::tru(b))
}
pub fn build(vs: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> {
    let mut p = if closed { Polyline::new_closed() } else { Polyline::new() };
    for x in vs {
        p.add(x.0, x.1, x.2);
    }
    p
}
pub fn reversed(p: &Polyline<f64>) -> Polyline<f64> {
    let mut q = p.clone();
    q.invert_direction_mut();
    q
}
/// the points of a random tour without crossings of its chords, some on a coarse grid
fn tour(n: &str, c: V, r: f64) -> Vec<(f64, f64, f64)> {
    let m = 3 + pick(&format!("{n}tm"), 7);
    let grid = pick(&format!("{n}tg"), 3) == 0;
    let arcs = pick(&format!("{n}ta"), 2) == 1;
    let co = |k: String| {
        let x = num(&k, -r, r);
        if grid {
            (x / r * 4.0).round() * r / 4.0
        } else {
            x
        }
    };
    let mut ps: Vec<V> = vec![];
    for i in 0..m {
        let q = add(c, v(co(format!("{n}tx{i}")), co(format!("{n}ty{i}"))));
        if ps.iter().all(|p| dist2(*p, q) > 0.15 * r) {
            ps.push(q);
        }
    }
    need(ps.len() >= 3);
    let l = ps.len();
    for _ in 0..40 {
        let mut moved = false;
        for i in 0..l {
            for j in i + 2..l {
                if i == 0 && j == l - 1 {
                    continue;
                }
                let (a, b, x, y) = (ps[i], ps[i + 1], ps[j], ps[(j + 1) % l]);
                if dist2(a, x) + dist2(b, y) < dist2(a, b) + dist2(x, y) - 1e-9 {
                    ps[i + 1..=j].reverse();
                    moved = true;
                }
            }
        }
        if !moved {
            break;
        }
    }
    ps.iter()
        .enumerate()
        .map(|(i, p)| {
            let b = if !arcs || pick(&format!("{n}tk{i}"), 3) == 0 { 0.0 } else { num(&format!("{n}tb{i}"), -0.8, 0.8) };
            (p.x, p.y, if b.abs() < 0.02 { 0.0 } else { b })
        })
        .collect()
}
/// closed simple polyline, counter clockwise
pub fn blob(n: &str, c: V, r: f64) -> Polyline<f64> {
    let kind = pick(&format!("{n}shape"), 9);
    let p = match kind {
        0 => {
            let (w, h) = (num(&format!("{n}w"), 0.2 * r, 2.0 * r).abs().max(0.2 * r), num(&format!("{n}h"), 0.2 * r, 2.0 * r).abs().max(0.2 * r));
            build(&[(c.x - w / 2.0, c.y - h / 2.0, 0.0), (c.x + w / 2.0, c.y - h / 2.0, 0.0), (c.x + w / 2.0, c.y + h / 2.0, 0.0), (c.x - w / 2.0, c.y + h / 2.0, 0.0)], true)
        }
        1 => {
            let q = num(&format!("{n}r"), 0.2 * r, r);
            build(&[(c.x - q, c.y, 1.0), (c.x + q, c.y, 1.0)], true)
        }
        6..=8 => {
            let p = build(&tour(n, c, r), true);
            if area_of(&segs(&p)) < 0.0 {
                reversed(&p)
            } else {
                p
            }
        }
        _ => {
            // star shaped around c, straight, arcs or mixed
            let m = 3 + pick(&format!("{n}m"), 6);
            let mut vs = vec![];
            let ph = num(&format!("{n}ph"), 0.0, 1.0);
            for i in 0..m {
                let a = std::f64::consts::TAU * (i as f64 + ph + 0.6 * num(&format!("{n}a{i}"), 0.0, 1.0)) / m as f64;
                let q = r * num(&format!("{n}q{i}"), 0.3, 1.0);
                let b = if kind == 2 || pick(&format!("{n}k{i}"), 2) == 0 { 0.0 } else { num(&format!("{n}b{i}"), -0.7, 1.0) };
                let b = if b.abs() < 0.02 { 0.0 } else { b };
                vs.push((c.x + q * a.cos(), c.y + q * a.sin(), b));
            }
            build(&vs, true)
        }
    };
    need(simple(&segs(&p), true, 0.02, 0.98));
    need(area_of(&segs(&p)) > 0.05);
    p
}
/// open polyline, possibly self intersecting
pub fn path(n: &str, r: f64) -> Polyline<f64> {
    if pick(&format!("{n}tour"), 3) == 0 {
        return build(&tour(n, v(0.0, 0.0), r), false);
    }
    let m = 2 + pick(&format!("{n}m"), 5);
    let arcs = pick(&format!("{n}arcs"), 2) == 1;
    let mut vs = vec![];
    for i in 0..m {
        let b = if !arcs || pick(&format!("{n}k{i}"), 2) == 0 { 0.0 } else { num(&format!("{n}b{i}"), -1.0, 1.0) };
        let b = if b.abs() < 0.02 { 0.0 } else { b };
        vs.push((num(&format!("{n}x{i}"), -r, r), num(&format!("{n}y{i}"), -r, r), b));
    }
    build(&vs, false)
}

/// debugging aid of replays
pub fn dump(l: &str, ps: &[Polyline<f64>]) {
    if std::env::var("DUMP").is_ok() {
        for p in ps {
            eprintln!("{l} closed={} {:?}", p.is_closed(), p.vertex_data.iter().map(|v| (v.x, v.y, v.bulge)).collect::<Vec<_>>());
        }
    }
}
