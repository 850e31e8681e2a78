//! Exact rationals over i128 with overflow detection (overflow aborts the current path as
//! *undecided*, it never produces a wrong value).
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn ovf() -> ! {
    crate::engine::abort_undecided("rational overflow")
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d);
        let g = if g == 0 { 1 } else { g };
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    /// Reads a float literal as the decimal number it prints as (1e-8 is 1/10^8).
    pub fn from_f64(f: f64) -> Option<Rat> {
        if !f.is_finite() {
            return None;
        }
        let s = format!("{:e}", f);
        let (m, e) = s.split_once('e')?;
        let e: i32 = e.parse().ok()?;
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let (ip, fp) = match m.split_once('.') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (m.to_string(), String::new()),
        };
        let digits = format!("{}{}", ip, fp);
        let mut n: i128 = digits.parse().ok()?;
        if neg {
            n = -n;
        }
        let exp = e - fp.len() as i32;
        if exp >= 0 {
            if exp > 30 {
                return None;
            }
            Some(Rat::int(n.checked_mul(10i128.pow(exp as u32))?))
        } else {
            if -exp > 36 {
                return None;
            }
            Some(Rat::new(n, 10i128.pow((-exp) as u32)))
        }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn sign(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n.checked_add(o.n).unwrap_or_else(|| ovf()), d: 1 };
        }
        let g = gcd(self.d, o.d);
        let l = (self.d / g).checked_mul(o.d).unwrap_or_else(|| ovf());
        let a = self.n.checked_mul(o.d / g).unwrap_or_else(|| ovf());
        let b = o.n.checked_mul(self.d / g).unwrap_or_else(|| ovf());
        Rat::new(a.checked_add(b).unwrap_or_else(|| ovf()), l)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.n == 0 || o.n == 0 {
            return Rat::ZERO;
        }
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        Rat {
            n: (self.n / g1).checked_mul(o.n / g2).unwrap_or_else(|| ovf()),
            d: (self.d / g2).checked_mul(o.d / g1).unwrap_or_else(|| ovf()),
        }
    }
    pub fn inv(self) -> Rat {
        assert!(self.n != 0);
        if self.n < 0 {
            Rat { n: -self.d, d: -self.n }
        } else {
            Rat { n: self.d, d: self.n }
        }
    }
    pub fn div(self, o: Rat) -> Rat {
        self.mul(o.inv())
    }
    pub fn cmp(self, o: Rat) -> Ordering {
        self.sub(o).n.cmp(&0)
    }
    pub fn sqrt_exact(self) -> Option<Rat> {
        if self.n < 0 {
            return None;
        }
        let f = |x: i128| {
            let mut r = (x as f64).sqrt() as i128;
            while r * r > x {
                r -= 1
            }
            while (r + 1) * (r + 1) <= x {
                r += 1
            }
            if r * r == x {
                Some(r)
            } else {
                None
            }
        };
        if self.n > (1i128 << 100) || self.d > (1i128 << 100) {
            return None;
        }
        Some(Rat { n: f(self.n)?, d: f(self.d)? })
    }
}
