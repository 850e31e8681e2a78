//! Multivariate polynomials with rational coefficients, sorted (lex order, largest first).
use crate::rat::{gcd, Rat};
use std::cmp::Ordering;

pub type Mono = Vec<(u32, u32)>;

/// lex order: smaller atom ids are more significant.
pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Ordering::Equal,
            (Some(_), None) => return Ordering::Greater,
            (None, Some(_)) => return Ordering::Less,
            (Some(&(x, ex)), Some(&(y, ey))) => {
                if x < y {
                    return Ordering::Greater;
                }
                if x > y {
                    return Ordering::Less;
                }
                if ex != ey {
                    return ex.cmp(&ey);
                }
                i += 1;
                j += 1;
            }
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else if a[i].0 > b[j].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(x, e) in a {
        if j < b.len() && b[j].0 < x {
            return None;
        }
        if j < b.len() && b[j].0 == x {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((x, e - b[j].1));
            }
            j += 1;
        } else {
            r.push((x, e));
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn constant(c: Rat) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn atom(a: u32) -> Poly {
        Poly(vec![(vec![(a, 1)], Rat::ONE)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::ZERO),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn as_atom(&self) -> Option<u32> {
        if self.0.len() == 1 && self.0[0].1 == Rat::ONE && self.0[0].0.len() == 1 && self.0[0].0[0].1 == 1 {
            Some(self.0[0].0[0].0)
        } else {
            None
        }
    }
    fn from_unsorted(mut v: Vec<(Mono, Rat)>) -> Poly {
        v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        let mut r: Vec<(Mono, Rat)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 = l.1.add(c);
                    continue;
                }
                if l.1.is_zero() {
                    r.pop();
                }
            }
            r.push((m, c));
        }
        r.retain(|x| !x.1.is_zero());
        Poly(r)
    }
    pub fn from_terms(v: Vec<(Mono, Rat)>) -> Poly {
        Poly::from_unsorted(v)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match mono_cmp(&self.0[i].0, &o.0[j].0) {
                Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1
                }
                Ordering::Less => {
                    r.push(o.0[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let c = self.0[i].1.add(o.0[j].1);
                    if !c.is_zero() {
                        r.push((self.0[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn scale(&self, c: Rat) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, k)| (m.clone(), k.mul(c))).collect())
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, k)| (m.clone(), k.neg())).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.0.len() * o.0.len() > 200_000 {
            crate::engine::abort_undecided("polynomial too large");
        }
        let mut v = Vec::with_capacity(self.0.len() * o.0.len());
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                v.push((mono_mul(m, n), c.mul(*d)));
            }
        }
        let r = Poly::from_unsorted(v);
        if r.0.len() > 20_000 {
            crate::engine::abort_undecided("polynomial too large");
        }
        r
    }
    pub fn pow(&self, e: u32) -> Poly {
        let mut r = Poly::constant(Rat::ONE);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// Exact division, None when not divisible.
    pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
        if o.is_zero() {
            return None;
        }
        if let Some(c) = o.as_const() {
            return Some(self.scale(c.inv()));
        }
        let (lm, lc) = &o.0[0];
        let mut rem = self.clone();
        let mut q: Vec<(Mono, Rat)> = vec![];
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 2000 {
                return None;
            }
            let (rm, rc) = rem.0[0].clone();
            let m = mono_div(&rm, lm)?;
            let c = rc.div(*lc);
            let t = Poly(vec![(m.clone(), c)]);
            rem = rem.sub(&t.mul(o));
            q.push((m, c));
        }
        Some(Poly::from_unsorted(q))
    }
    /// Polynomial square root (p with p*p == self), if it exists.
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (m, c) = &self.0[0];
        let lc = c.sqrt_exact()?;
        let mut lm = vec![];
        for &(a, e) in m {
            if e % 2 != 0 {
                return None;
            }
            lm.push((a, e / 2));
        }
        let lead = Poly(vec![(lm.clone(), lc)]);
        let mut p = lead.clone();
        let two_lead_c = lc.mul(Rat::int(2));
        let mut steps = 0;
        loop {
            let r = self.sub(&p.mul(&p));
            if r.is_zero() {
                return Some(p);
            }
            steps += 1;
            if steps > 60 {
                return None;
            }
            let (rm, rc) = &r.0[0];
            let qm = mono_div(rm, &lm)?;
            // next term must be smaller than the current smallest term
            if mono_cmp(&qm, &p.0.last().unwrap().0) != Ordering::Less {
                return None;
            }
            p.0.push((qm, rc.div(two_lead_c)));
        }
    }
    /// Returns (scale, primitive) with self = scale * primitive, primitive having coprime integer
    /// coefficients and a positive leading coefficient.
    pub fn primitive(&self) -> (Rat, Poly) {
        if self.is_zero() {
            return (Rat::ONE, self.clone());
        }
        let mut gn: i128 = 0;
        let mut ld: i128 = 1;
        for (_, c) in &self.0 {
            gn = gcd(gn, c.n);
            let g = gcd(ld, c.d);
            ld = match (ld / g).checked_mul(c.d) {
                Some(x) => x,
                None => crate::engine::abort_undecided("rational overflow"),
            };
        }
        let mut s = Rat::new(gn, ld);
        if self.0[0].1.sign() < 0 {
            s = s.neg();
        }
        (s, self.scale(s.inv()))
    }
    /// Monomial content.
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.iter();
        let mut r = match it.next() {
            None => return vec![],
            Some((m, _)) => m.clone(),
        };
        for (m, _) in it {
            r = r
                .into_iter()
                .filter_map(|(a, e)| m.iter().find(|x| x.0 == a).map(|x| (a, e.min(x.1))))
                .collect();
            if r.is_empty() {
                break;
            }
        }
        r
    }
    pub fn atoms(&self, out: &mut Vec<u32>) {
        for (m, _) in &self.0 {
            for &(a, _) in m {
                if !out.contains(&a) {
                    out.push(a);
                }
            }
        }
    }
    pub fn max_exp(&self, atom: u32) -> u32 {
        self.0
            .iter()
            .flat_map(|(m, _)| m.iter())
            .filter(|x| x.0 == atom)
            .map(|x| x.1)
            .max()
            .unwrap_or(0)
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|(m, _)| m.iter().map(|x| x.1).sum::<u32>()).max().unwrap_or(0)
    }
    pub fn eval(&self, f: &mut dyn FnMut(u32) -> f64) -> (f64, f64) {
        // returns (value, magnitude)
        let mut v = 0.0;
        let mut mag = 0.0;
        for (m, c) in &self.0 {
            let mut t = c.to_f64();
            for &(a, e) in m {
                t *= f(a).powi(e as i32);
            }
            v += t;
            mag += t.abs();
        }
        (v, mag)
    }
}
