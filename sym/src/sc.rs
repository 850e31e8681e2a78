//! The contract language: one contract text, two meanings. At `Sym` it generates proof obligations,
//! at `f64` it evaluates the same pre/postconditions on a concrete call of the real code.
use crate::engine::{draw, eng, stop, Stop, F, NEG, ZER};
use crate::sym::{self, Sym};
use cavalier_contours::core::traits::Real;
use std::cell::RefCell;
use std::collections::HashMap;

pub trait Sc: Real + 'static {
    type B: Clone;
    const SYM: bool;
    fn ltf(a: Self, b: Self) -> Self::B;
    fn lef(a: Self, b: Self) -> Self::B;
    fn eq_(a: Self, b: Self) -> Self::B;
    fn tru(b: bool) -> Self::B;
    fn and(v: Vec<Self::B>) -> Self::B;
    fn or(v: Vec<Self::B>) -> Self::B;
    fn not(b: Self::B) -> Self::B;
    /// universally quantified input; [lo, hi] only guides concrete draws
    fn inp(name: &str, lo: f64, hi: f64) -> Self;
    /// the same, with draws spread over the orders of magnitude between lo > 0 and hi
    fn inp_log(name: &str, lo: f64, hi: f64) -> Self {
        Self::inp(name, lo, hi)
    }
    fn assume(b: Self::B);
    fn ensure(label: &str, b: Self::B);
    fn ensure_tol(label: &str, b: Self::B, tol: f64);
    fn choose(name: &str, n: usize) -> usize;
    fn allow_undef();
    /// tells the engine about an angle that the code may recompute with atan2 (nothing is assumed)
    fn know_angle(self) {}
    fn show(self) -> String;
    fn c(f: f64) -> Self {
        <Self as num_traits::NumCast>::from(f).unwrap()
    }
    fn imp(a: Self::B, b: Self::B) -> Self::B {
        Self::or(vec![Self::not(a), b])
    }
    fn iff(a: Self::B, b: Self::B) -> Self::B {
        Self::and(vec![Self::imp(a.clone(), b.clone()), Self::imp(b, a)])
    }
    fn gtf(a: Self, b: Self) -> Self::B {
        Self::ltf(b, a)
    }
    fn gef(a: Self, b: Self) -> Self::B {
        Self::lef(b, a)
    }
    fn ne_(a: Self, b: Self) -> Self::B {
        Self::not(Self::eq_(a, b))
    }
    fn within(lo: Self, x: Self, hi: Self) -> Self::B {
        Self::and(vec![Self::lef(lo, x), Self::lef(x, hi)])
    }
    fn near(a: Self, b: Self, tol: Self) -> Self::B {
        Self::and(vec![Self::lef(a - b, tol), Self::lef(b - a, tol)])
    }
}

impl Sc for Sym {
    type B = F;
    const SYM: bool = true;
    fn ltf(a: Sym, b: Sym) -> F {
        sym::sgn(a - b, NEG)
    }
    fn lef(a: Sym, b: Sym) -> F {
        sym::sgn(a - b, NEG | ZER)
    }
    fn eq_(a: Sym, b: Sym) -> F {
        sym::sgn(a - b, ZER)
    }
    fn tru(b: bool) -> F {
        if b {
            F::T
        } else {
            F::Fl
        }
    }
    fn and(v: Vec<F>) -> F {
        F::and(v)
    }
    fn or(v: Vec<F>) -> F {
        F::or(v)
    }
    fn not(b: F) -> F {
        b.not()
    }
    fn inp(name: &str, lo: f64, hi: f64) -> Sym {
        Sym(eng(|e| {
            let a = e.new_atom(name, crate::engine::Kind::Input(lo, hi));
            e.v_atom(a)
        }))
    }
    fn assume(b: F) {
        if let Err(s) = eng(|e| e.assume(b)) {
            stop(s)
        }
    }
    fn ensure(label: &str, b: F) {
        eng(|e| e.obligation(label, b));
    }
    fn ensure_tol(label: &str, b: F, _tol: f64) {
        Self::ensure(label, b)
    }
    fn choose(name: &str, n: usize) -> usize {
        eng(|e| e.choose(name, n))
    }
    fn allow_undef() {
        eng(|e| e.allow_undef = true)
    }
    fn know_angle(self) {
        if let Err(s) = eng(|e| e.know_angle(self.0)) {
            stop(s)
        }
    }
    fn show(self) -> String {
        eng(|e| {
            let v = e.vals[self.0 as usize].clone();
            let n = e.poly_str(&v.num);
            let d: Vec<String> = v
                .den
                .iter()
                .map(|(f, k)| format!("({})^{}", e.poly_str(&e.polys[*f as usize]), k))
                .collect();
            format!("{} / {}", n, d.join(" "))
        })
    }
}

#[derive(Default)]
pub struct Conc {
    pub seed: u64,
    pub given: HashMap<String, f64>,
    pub used: Vec<(String, f64)>,
    pub ensured: Vec<String>,
    pub failed: Vec<(String, f64)>,
    pub allow_undef: bool,
}
thread_local! {
    pub static CONC: RefCell<Conc> = RefCell::new(Conc::default());
}

/// Robustness semantics: a formula is a margin, non negative when it holds.
impl Sc for f64 {
    type B = f64;
    const SYM: bool = false;
    fn ltf(a: f64, b: f64) -> f64 {
        let m = margin(b - a, a, b);
        if m == 0.0 {
            -TINY
        } else {
            m
        }
    }
    fn lef(a: f64, b: f64) -> f64 {
        margin(b - a, a, b)
    }
    fn eq_(a: f64, b: f64) -> f64 {
        let m = margin(-(b - a).abs(), a, b);
        if m == 0.0 {
            0.0
        } else {
            m
        }
    }
    fn tru(b: bool) -> f64 {
        if b {
            f64::INFINITY
        } else {
            f64::NEG_INFINITY
        }
    }
    fn and(v: Vec<f64>) -> f64 {
        v.into_iter().fold(f64::INFINITY, |a, b| if b.is_nan() || a.is_nan() { f64::NAN } else { a.min(b) })
    }
    fn or(v: Vec<f64>) -> f64 {
        v.into_iter().fold(f64::NEG_INFINITY, |a, b| if b.is_nan() || a.is_nan() { f64::NAN } else { a.max(b) })
    }
    fn not(b: f64) -> f64 {
        if b == 0.0 {
            -TINY
        } else if b == -TINY {
            0.0
        } else {
            -b
        }
    }
    fn inp(name: &str, lo: f64, hi: f64) -> f64 {
        CONC.with(|c| {
            let mut c = c.borrow_mut();
            let v = match c.given.get(name) {
                Some(v) => *v,
                None => {
                    let v = draw(c.seed, name, lo, hi);
                    c.given.insert(name.to_string(), v);
                    v
                }
            };
            if !c.used.iter().any(|x| x.0 == name) {
                c.used.push((name.to_string(), v));
            }
            v
        })
    }
    fn inp_log(name: &str, lo: f64, hi: f64) -> f64 {
        CONC.with(|c| {
            let mut c = c.borrow_mut();
            if !c.given.contains_key(name) {
                let spread = draw(c.seed ^ 0x5eed, name, 0.0, 1e9) as u64 % 2 == 0;
                let v = if spread {
                    let u = draw((c.seed ^ 0x10a9) << 2, name, 0.0, 1.0);
                    (lo.ln() + (hi.ln() - lo.ln()) * u).exp().clamp(lo, hi)
                } else {
                    draw(c.seed, name, lo, hi)
                };
                c.given.insert(name.to_string(), v);
            }
        });
        Self::inp(name, lo, hi)
    }
    fn assume(b: f64) {
        if !(b >= 0.0) {
            stop(Stop::Skip)
        }
    }
    fn ensure(label: &str, b: f64) {
        Self::ensure_tol(label, b, 1e-6)
    }
    fn ensure_tol(label: &str, b: f64, tol: f64) {
        CONC.with(|c| {
            let mut c = c.borrow_mut();
            if !c.ensured.iter().any(|x| x == label) {
                c.ensured.push(label.to_string());
            }
            if !(b >= -tol) {
                c.failed.push((label.to_string(), b));
            }
        })
    }
    fn choose(name: &str, n: usize) -> usize {
        let key = format!("#{}", name);
        CONC.with(|c| {
            let mut c = c.borrow_mut();
            let v = match c.given.get(&key) {
                Some(v) => *v,
                None => {
                    let h = draw(c.seed ^ 0xc0ffee, &key, 0.0, 1e9) as u64;
                    let v = (h % n as u64) as f64;
                    c.given.insert(key.clone(), v);
                    v
                }
            };
            if !c.used.iter().any(|x| x.0 == key) {
                c.used.push((key, v));
            }
            (v as usize).min(n - 1)
        })
    }
    fn allow_undef() {
        CONC.with(|c| c.borrow_mut().allow_undef = true)
    }
    fn show(self) -> String {
        format!("{}", self)
    }
}

/// margin of a strict comparison that fails only by equality
const TINY: f64 = f64::MIN_POSITIVE;

/// differences are measured relative to the magnitude of the operands (absolute below 1)
fn margin(d: f64, a: f64, b: f64) -> f64 {
    let m = a.abs().max(b.abs()).max(1.0);
    d / m
}

// short forms for contract texts
pub fn lt<S: Sc>(a: S, b: S) -> S::B {
    S::ltf(a, b)
}
pub fn le<S: Sc>(a: S, b: S) -> S::B {
    S::lef(a, b)
}
pub fn gt<S: Sc>(a: S, b: S) -> S::B {
    S::gtf(a, b)
}
pub fn ge<S: Sc>(a: S, b: S) -> S::B {
    S::gef(a, b)
}
pub fn eq<S: Sc>(a: S, b: S) -> S::B {
    S::eq_(a, b)
}
pub fn ne<S: Sc>(a: S, b: S) -> S::B {
    S::ne_(a, b)
}

/// larger bounds (thorough tier)
pub fn deep() -> bool {
    DEEP.load(std::sync::atomic::Ordering::Relaxed)
}
pub static DEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

thread_local! {
    pub static LAST: RefCell<Vec<(String, f64)>> = const { RefCell::new(vec![]) };
}
/// inputs of the last concrete evaluation
pub fn last_used() -> Vec<(String, f64)> {
    LAST.with(|x| x.borrow().clone())
}
