//! `Sym`: a scalar whose operations build exact real terms and whose comparisons branch.
use crate::engine::*;
use crate::rat::Rat;
use cavalier_contours::core::traits::{FuzzyEq, FuzzyOrd, Real};
use num_traits::{Bounded, Num, NumCast, One, ToPrimitive, Zero};
use static_aabb2d_index::IndexableNum;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

pub fn decide(f: F) -> bool {
    match eng(|e| e.decide(f)) {
        Ok(b) => b,
        Err(s) => stop(s),
    }
}
pub fn sgn(v: Sym, mask: u8) -> F {
    // an angle that is compared is first located among the multiples of pi/2
    while let Some((_, bound)) = eng(|e| e.angle_part(v.0)) {
        match eng(|e| e.quadrant_alts(v.0, bound)) {
            Ok(alts) => {
                if let Err(s) = eng(|e| e.decide_multi(alts)) {
                    stop(s)
                }
            }
            Err(s) => stop(s),
        }
    }
    eng(|e| e.sgn_val(v.0, mask))
}
pub fn rat(r: Rat) -> Sym {
    Sym(eng(|e| e.v_const(r)))
}
fn undef(s: &str) -> ! {
    if eng(|e| e.feasible_now()) {
        stop(Stop::Undef(s.to_string()))
    }
    stop(Stop::Infeasible)
}
fn unsupported(s: &str) -> ! {
    stop(Stop::Undecided(format!("unsupported operation {}", s)))
}

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sym({})", self.0)
    }
}
impl Default for Sym {
    fn default() -> Self {
        Sym(0)
    }
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        Sym(eng(|e| e.v_add(self.0, o.0)))
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        Sym(eng(|e| e.v_sub(self.0, o.0)))
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        Sym(eng(|e| e.v_mul(self.0, o.0)))
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(eng(|e| e.v_neg(self.0)))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        let z = sgn(o, ZER);
        if decide(z) {
            undef("division by zero");
        }
        Sym(eng(|e| e.v_div_raw(self.0, o.0)))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = num_traits::real::Real::trunc(self / o);
        self - q * o
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.0 == o.0 || decide(sgn(*self - *o, ZER))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(if self < o {
            Ordering::Less
        } else if self == o {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        decide(sgn(*self - *o, NEG))
    }
    fn le(&self, o: &Sym) -> bool {
        decide(sgn(*self - *o, NEG | ZER))
    }
    fn gt(&self, o: &Sym) -> bool {
        decide(sgn(*self - *o, POS))
    }
    fn ge(&self, o: &Sym) -> bool {
        decide(sgn(*self - *o, POS | ZER))
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        decide(sgn(*self, ZER))
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_s: &str, _r: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        match eng(|e| e.as_const(self.0)) {
            Some(c) => Some((c.n / c.d) as i64),
            None => unsupported("to_i64 of a symbolic value"),
        }
    }
    fn to_u64(&self) -> Option<u64> {
        match eng(|e| e.as_const(self.0)) {
            Some(c) if c.n >= 0 => Some((c.n / c.d) as u64),
            Some(_) => None,
            None => {
                // small non negative integers by case analysis
                for k in 0..6i128 {
                    if *self < rat(Rat::int(k + 1)) {
                        return Some(k as u64);
                    }
                }
                unsupported("to_u64 of a symbolic value")
            }
        }
    }
    fn to_f64(&self) -> Option<f64> {
        match eng(|e| e.as_const(self.0)) {
            Some(c) => Some(c.to_f64()),
            None => unsupported("to_f64 of a symbolic value"),
        }
    }
}
impl NumCast for Sym {
    fn from<N: ToPrimitive>(n: N) -> Option<Sym> {
        let f = n.to_f64()?;
        if f == std::f64::consts::PI {
            return Some(<Sym as Real>::pi());
        }
        if f == std::f64::consts::TAU {
            return Some(<Sym as Real>::tau());
        }
        Some(rat(Rat::from_f64(f)?))
    }
}
const BIG: i128 = 1_000_000_000_000;
impl Bounded for Sym {
    fn min_value() -> Sym {
        rat(Rat::int(-BIG))
    }
    fn max_value() -> Sym {
        rat(Rat::int(BIG))
    }
}
fn floor_small(x: Sym) -> Sym {
    if let Some(c) = eng(|e| e.as_const(x.0)) {
        return rat(Rat::int(c.n.div_euclid(c.d)));
    }
    for k in [0i128, -1, 1, -2, 2, -3, 3] {
        let lo = rat(Rat::int(k));
        let hi = rat(Rat::int(k + 1));
        if lo <= x && x < hi {
            return lo;
        }
    }
    unsupported("floor of a value outside [-3, 4)")
}
impl num_traits::real::Real for Sym {
    fn min_value() -> Sym {
        <Sym as Bounded>::min_value()
    }
    fn min_positive_value() -> Sym {
        rat(Rat::new(1, BIG))
    }
    fn epsilon() -> Sym {
        rat(Rat::new(1, BIG))
    }
    fn max_value() -> Sym {
        <Sym as Bounded>::max_value()
    }
    fn floor(self) -> Sym {
        floor_small(self)
    }
    fn ceil(self) -> Sym {
        -floor_small(-self)
    }
    fn round(self) -> Sym {
        unsupported("round")
    }
    fn trunc(self) -> Sym {
        if self < Sym(0) {
            -floor_small(-self)
        } else {
            floor_small(self)
        }
    }
    fn fract(self) -> Sym {
        self - num_traits::real::Real::trunc(self)
    }
    fn abs(self) -> Sym {
        if let Some(v) = eng(|e| e.abs_known(self.0)) {
            return Sym(v);
        }
        if decide(sgn(self, NEG)) {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Sym {
        if decide(sgn(self, NEG)) {
            -Sym(1)
        } else {
            Sym(1)
        }
    }
    fn is_sign_positive(self) -> bool {
        decide(sgn(self, POS | ZER))
    }
    fn is_sign_negative(self) -> bool {
        decide(sgn(self, NEG))
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym(1);
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            Sym(1) / r
        } else {
            r
        }
    }
    fn powf(self, _n: Sym) -> Sym {
        unsupported("powf")
    }
    fn sqrt(self) -> Sym {
        if decide(sgn(self, NEG)) {
            undef("square root of a negative number");
        }
        match eng(|e| e.sqrt_raw(self.0)) {
            Ok(v) => Sym(v),
            Err((p, q)) => num_traits::real::Real::abs(Sym(p)) * Sym(q),
        }
    }
    fn exp(self) -> Sym {
        unsupported("exp")
    }
    fn exp2(self) -> Sym {
        unsupported("exp2")
    }
    fn ln(self) -> Sym {
        unsupported("ln")
    }
    fn log(self, _b: Sym) -> Sym {
        unsupported("log")
    }
    fn log2(self) -> Sym {
        unsupported("log2")
    }
    fn log10(self) -> Sym {
        unsupported("log10")
    }
    fn to_degrees(self) -> Sym {
        self * rat(Rat::int(180)) / <Sym as Real>::pi()
    }
    fn to_radians(self) -> Sym {
        self * <Sym as Real>::pi() / rat(Rat::int(180))
    }
    fn max(self, o: Sym) -> Sym {
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Sym) -> Sym {
        if self <= o {
            Sym(0)
        } else {
            self - o
        }
    }
    fn cbrt(self) -> Sym {
        unsupported("cbrt")
    }
    fn hypot(self, o: Sym) -> Sym {
        num_traits::real::Real::sqrt(self * self + o * o)
    }
    fn sin(self) -> Sym {
        num_traits::real::Real::sin_cos(self).0
    }
    fn cos(self) -> Sym {
        num_traits::real::Real::sin_cos(self).1
    }
    fn tan(self) -> Sym {
        if let Some(t) = eng(|e| e.tan_known(self.0)) {
            return Sym(t);
        }
        let (s, c) = num_traits::real::Real::sin_cos(self);
        if decide(sgn(c, ZER)) {
            undef("tangent of a right angle");
        }
        Sym(eng(|e| e.v_div_raw(s.0, c.0)))
    }
    fn asin(self) -> Sym {
        unsupported("asin")
    }
    fn acos(self) -> Sym {
        unsupported("acos")
    }
    fn atan(self) -> Sym {
        Sym(eng(|e| e.atan_raw(self.0)))
    }
    fn atan2(self, x: Sym) -> Sym {
        let y = self;
        if y.0 == 0 {
            if decide(sgn(x, NEG)) {
                return <Sym as Real>::pi();
            }
            return Sym(0);
        }
        let quarter = <Sym as Real>::pi() / rat(Rat::int(4));
        let k = |n: i128| quarter * rat(Rat::int(n));
        if x.0 == 0 {
            return if decide(sgn(y, POS)) {
                k(2)
            } else if decide(sgn(y, NEG)) {
                -k(2)
            } else {
                Sym(0)
            };
        }
        if x.0 == y.0 {
            return if decide(sgn(y, POS)) {
                k(1)
            } else if decide(sgn(y, NEG)) {
                -k(3)
            } else {
                Sym(0)
            };
        }
        if x.0 == (-y).0 {
            return if decide(sgn(y, POS)) {
                k(3)
            } else if decide(sgn(y, NEG)) {
                -k(1)
            } else {
                Sym(0)
            };
        }
        let zz = F::and(vec![sgn(y, ZER), sgn(x, ZER)]);
        if decide(zz) {
            return Sym(0);
        }
        if let Some((a, d)) = eng(|e| e.match_angle(y.0, x.0)) {
            let pi = <Sym as Real>::pi();
            let two_pi = <Sym as Real>::tau();
            let mut a = Sym(a);
            if decide(sgn(Sym(d), NEG)) {
                a = a + pi;
            }
            for _ in 0..8 {
                if a > pi {
                    a = a - two_pi;
                } else if a <= -pi {
                    a = a + two_pi;
                } else {
                    return a;
                }
            }
            unsupported("normalising a far angle");
        }
        let a = eng(|e| e.atan2_raw(y.0, x.0));
        if let Err(s) = eng(|e| e.know_angle(a)) {
            stop(s)
        }
        Sym(a)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        match eng(|e| e.cos_sin(self.0)) {
            Ok((c, s)) => (Sym(s), Sym(c)),
            Err(st) => stop(st),
        }
    }
    fn exp_m1(self) -> Sym {
        unsupported("exp_m1")
    }
    fn ln_1p(self) -> Sym {
        unsupported("ln_1p")
    }
    fn sinh(self) -> Sym {
        unsupported("sinh")
    }
    fn cosh(self) -> Sym {
        unsupported("cosh")
    }
    fn tanh(self) -> Sym {
        unsupported("tanh")
    }
    fn asinh(self) -> Sym {
        unsupported("asinh")
    }
    fn acosh(self) -> Sym {
        unsupported("acosh")
    }
    fn atanh(self) -> Sym {
        unsupported("atanh")
    }
}
impl FuzzyEq for Sym {
    fn fuzzy_epsilon() -> Sym {
        Sym(eng(|e| {
            let a = e.eps;
            e.v_atom(a)
        }))
    }
    // |self - other| < eps, written as one branch
    fn fuzzy_eq_eps(&self, o: Sym, eps: Sym) -> bool {
        (*self - o).fuzzy_eq_zero_eps(eps)
    }
    fn fuzzy_eq_zero_eps(&self, eps: Sym) -> bool {
        let f = F::and(vec![sgn(*self - eps, NEG), sgn(*self + eps, POS)]);
        decide(f)
    }
}
impl FuzzyOrd for Sym {
    fn fuzzy_gt_eps(&self, o: Sym, eps: Sym) -> bool {
        *self + eps > o
    }
    fn fuzzy_lt_eps(&self, o: Sym, eps: Sym) -> bool {
        *self < o + eps
    }
}
impl Real for Sym {
    fn pi() -> Sym {
        Sym(eng(|e| {
            let a = e.pi;
            e.v_atom(a)
        }))
    }
    fn tau() -> Sym {
        <Sym as Real>::pi() * rat(Rat::int(2))
    }
    fn two() -> Sym {
        rat(Rat::int(2))
    }
    fn four() -> Sym {
        rat(Rat::int(4))
    }
}
impl IndexableNum for Sym {
    fn min(self, o: Sym) -> Sym {
        num_traits::real::Real::min(self, o)
    }
    fn max(self, o: Sym) -> Sym {
        num_traits::real::Real::max(self, o)
    }
    fn total_cmp(&self, o: &Sym) -> Ordering {
        self.partial_cmp(o).unwrap()
    }
}
