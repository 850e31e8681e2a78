//! Symbolic scalar engine: exact real arithmetic on rational functions over atoms, path exploration
//! by re-execution, verification-condition generation.
use crate::poly::{Mono, Poly};
use crate::rat::Rat;
use crate::smt::{run_fresh, Ans, Proc};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Val {
    pub num: Poly,
    /// denominator factors (interned primitive polynomials), all known non zero
    pub den: Vec<(u32, u32)>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum F {
    T,
    Fl,
    /// sign of poly in mask
    S(u32, u8),
    And(Rc<Vec<F>>),
    Or(Rc<Vec<F>>),
}

impl F {
    pub fn not(&self) -> F {
        match self {
            F::T => F::Fl,
            F::Fl => F::T,
            F::S(p, m) => F::S(*p, 7 & !*m),
            F::And(v) => F::Or(Rc::new(v.iter().map(|x| x.not()).collect())),
            F::Or(v) => F::And(Rc::new(v.iter().map(|x| x.not()).collect())),
        }
    }
    pub fn and(v: Vec<F>) -> F {
        let mut r = vec![];
        for x in v {
            match x {
                F::T => {}
                F::Fl => return F::Fl,
                F::And(w) => r.extend(w.iter().cloned()),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => F::T,
            1 => r.pop().unwrap(),
            _ => F::And(Rc::new(r)),
        }
    }
    pub fn or(v: Vec<F>) -> F {
        let mut r = vec![];
        for x in v {
            match x {
                F::Fl => {}
                F::T => return F::T,
                F::Or(w) => r.extend(w.iter().cloned()),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => F::Fl,
            1 => r.pop().unwrap(),
            _ => F::Or(Rc::new(r)),
        }
    }
    pub fn polys(&self, out: &mut Vec<u32>) {
        match self {
            F::S(p, _) => {
                if !out.contains(p) {
                    out.push(*p)
                }
            }
            F::And(v) | F::Or(v) => v.iter().for_each(|x| x.polys(out)),
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Input(f64, f64),
    Pi,
    Eps,
    Sqrt(u32),
    Atan2(u32, u32),
    Atan(u32),
    Acos(u32),
    /// cos / sin of (rational multiple of an angle atom): atom, divisor
    CosOf(u32, i128),
    SinOf(u32, i128),
    /// cosine / sine of a constant number of radians
    CosK(Rat),
    SinK(Rat),
}

pub struct Atom {
    pub name: String,
    pub kind: Kind,
    pub axioms: Vec<F>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub named: HashMap<String, f64>,
    pub seed: u64,
    pub from_solver: bool,
    memo: Vec<f64>,
    done: Vec<bool>,
}

pub enum Stop {
    Infeasible,
    AssumeFalse,
    Undef(String),
    Undecided(String),
    /// f64 mode: input outside the precondition
    Skip,
    OtherShard,
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub choice: u16,
    pub implied: bool,
    /// the branch was shown feasible (by a model or a solver `sat`)
    pub confirmed: bool,
    /// what was decided, checked when the prefix is executed again
    pub tag: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Discharged(String),
    Refuted(Vec<(String, f64)>),
    /// the solver's model does not survive evaluation with the true functions
    Candidate(Vec<(String, f64)>),
    Undecided(String),
}

#[derive(Clone, Debug)]
pub struct Obl {
    pub label: String,
    pub path: usize,
    pub status: Status,
    pub ms: u128,
}

pub struct Opts {
    pub feas_ms: u64,
    pub obl_ms: u64,
    pub max_paths: usize,
    pub deadline: Instant,
    pub seed: u64,
    pub pool: usize,
    pub verbose: bool,
    /// (index, count): only paths whose leading case choices fall into this shard
    pub shard: (usize, usize),
}

pub struct Engine {
    pub atoms: Vec<Atom>,
    by_name: HashMap<String, u32>,
    pub polys: Vec<Poly>,
    poly_ix: HashMap<Poly, u32>,
    pub vals: Vec<Val>,
    val_ix: HashMap<Val, u32>,
    sqrt_ix: Vec<(u32, u32)>, // val (radicand) -> atom
    atan2_ix: HashMap<(u32, u32), u32>,
    kind_ix: HashMap<String, u32>,
    /// angles whose quadrant was decided on the current path
    pub located: HashSet<u32>,
    /// angles (value, cos, sin) a later atan2 may turn out to compute
    pub known_angles: Vec<(u32, u32, u32)>,
    atan_list: Vec<(u32, u32)>,
    cs_used: HashSet<u32>,
    shard_code: usize,
    shard_done: bool,
    // path
    pub pc: Vec<(F, bool)>,
    pub masks: HashMap<u32, u8>,
    pub prefix: Vec<Dec>,
    pub log: Vec<Dec>,
    pub work: Vec<Vec<Dec>>,
    pub live: Vec<usize>,
    pub models: Vec<Model>,
    pub notes: Vec<(String, String)>,
    pub path_choices: Vec<(String, usize)>,
    // solver
    solver: Option<Proc>,
    sstack: Vec<F>,
    sdecl: HashSet<u32>,
    sax: Vec<Vec<u32>>, // axioms asserted per level
    pub opts: Opts,
    // results
    pub obls: Vec<Obl>,
    pub path_no: usize,
    pub stats: BTreeMap<String, u64>,
    pub solver_ms: u128,
    pub covered: BTreeMap<String, u64>,
    pub allow_undef: bool,
    pub assumed_after_confirm: bool,
    pub pi: u32,
    pub eps: u32,
}

thread_local! {
    pub static ENG: RefCell<Option<Engine>> = const { RefCell::new(None) };
}

pub fn stop(s: Stop) -> ! {
    std::panic::resume_unwind(Box::new(s))
}
pub fn abort_undecided(s: &str) -> ! {
    stop(Stop::Undecided(s.to_string()))
}

pub fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| {
        let mut b = e.borrow_mut();
        f(b.as_mut().expect("no engine on this thread"))
    })
}

fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

/// Deterministic input draw used for random models and for the concrete search.
pub fn draw(seed: u64, name: &str, lo: f64, hi: f64) -> f64 {
    let mut h = splitmix(seed);
    for b in name.bytes() {
        h = splitmix(h ^ b as u64);
    }
    let style = splitmix(seed ^ 0x1234) % 4;
    let k = splitmix(h ^ 0xabcdef);
    let u = (splitmix(h ^ 0x55) >> 11) as f64 / (1u64 << 53) as f64;
    let v = lo + (hi - lo) * u;
    match (style, k % 4) {
        (0, _) => v,
        (1, 0) => v,
        (1, _) => v.round().clamp(lo, hi),
        (2, 0..=1) => (v * 2.0).round() / 2.0,
        (2, _) => v.round().clamp(lo, hi),
        (_, 0) => v,
        (_, 1) => v.round().clamp(lo, hi),
        (_, 2) => (v * 4.0).round() / 4.0,
        _ => {
            // tiny integers favour coincidences
            let w = (splitmix(h ^ 0x77) % 5) as f64 - 2.0;
            if w >= lo && w <= hi {
                w
            } else {
                v
            }
        }
    }
}

impl Engine {
    pub fn new(opts: Opts) -> Engine {
        let mut e = Engine {
            atoms: vec![],
            by_name: HashMap::new(),
            polys: vec![],
            poly_ix: HashMap::new(),
            vals: vec![],
            val_ix: HashMap::new(),
            sqrt_ix: vec![],
            atan2_ix: HashMap::new(),
            kind_ix: HashMap::new(),
            located: HashSet::new(),
            known_angles: vec![],
            atan_list: vec![],
            cs_used: HashSet::new(),
            shard_code: 0,
            shard_done: false,
            pc: vec![],
            masks: HashMap::new(),
            prefix: vec![],
            log: vec![],
            work: vec![],
            live: vec![],
            models: vec![],
            notes: vec![],
            path_choices: vec![],
            solver: None,
            sstack: vec![],
            sdecl: HashSet::new(),
            sax: vec![],
            opts,
            obls: vec![],
            path_no: 0,
            stats: BTreeMap::new(),
            solver_ms: 0,
            covered: BTreeMap::new(),
            allow_undef: false,
            assumed_after_confirm: false,
            pi: 0,
            eps: 0,
        };
        e.mk_val(Val { num: Poly::zero(), den: vec![] }); // id 0 = zero
        e.mk_val(Val { num: Poly::constant(Rat::ONE), den: vec![] }); // id 1 = one
        let pi = e.new_atom("pi", Kind::Pi);
        e.pi = pi;
        let p = Poly::atom(pi);
        let lo = e.sgn_poly(&p.sub(&Poly::constant(Rat::new(314159265358979, 100000000000000))), POS);
        let hi = e.sgn_poly(&p.sub(&Poly::constant(Rat::new(314159265358980, 100000000000000))), NEG);
        e.atoms[pi as usize].axioms = vec![lo, hi];
        let eps = e.new_atom("eps", Kind::Eps);
        e.eps = eps;
        let p = Poly::atom(eps);
        let lo = F::S(e.intern(p.clone()), POS);
        let hi = e.sgn_poly(&p.sub(&Poly::constant(Rat::new(1, 100_000_000))), NEG | ZER);
        e.atoms[eps as usize].axioms = vec![lo, hi];
        for i in 0..e.opts.pool {
            let seed = splitmix(e.opts.seed.wrapping_mul(1000003) ^ i as u64);
            e.models.push(Model { seed, ..Default::default() });
        }
        e
    }

    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }

    pub fn new_atom(&mut self, name: &str, kind: Kind) -> u32 {
        if let Some(&a) = self.by_name.get(name) {
            return a;
        }
        let id = self.atoms.len() as u32;
        self.atoms.push(Atom { name: name.to_string(), kind, axioms: vec![] });
        self.by_name.insert(name.to_string(), id);
        id
    }

    pub fn intern(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.poly_ix.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        self.poly_ix.insert(p.clone(), i);
        self.polys.push(p);
        i
    }

    pub fn mk_val(&mut self, v: Val) -> u32 {
        if let Some(&i) = self.val_ix.get(&v) {
            return i;
        }
        let i = self.vals.len() as u32;
        self.val_ix.insert(v.clone(), i);
        self.vals.push(v);
        i
    }
    pub fn v_const(&mut self, c: Rat) -> u32 {
        self.mk_val(Val { num: Poly::constant(c), den: vec![] })
    }
    pub fn v_atom(&mut self, a: u32) -> u32 {
        self.mk_val(Val { num: Poly::atom(a), den: vec![] })
    }
    pub fn as_const(&self, v: u32) -> Option<Rat> {
        let v = &self.vals[v as usize];
        if v.den.is_empty() {
            v.num.as_const()
        } else {
            None
        }
    }

    fn square_of(&self, a: u32) -> Option<Val> {
        match &self.atoms[a as usize].kind {
            Kind::Sqrt(r) => Some(self.vals[*r as usize].clone()),
            _ => None,
        }
    }
    /// sin atoms: s^2 = 1 - c^2
    fn sin_square(&self, a: u32) -> Option<Val> {
        match &self.atoms[a as usize].kind {
            Kind::SinOf(t, d) => {
                let c = self.kind_ix.get(&format!("cos{}_{}", t, d))?;
                Some(Val {
                    num: Poly::constant(Rat::ONE).sub(&Poly::atom(*c).pow(2)),
                    den: vec![],
                })
            }
            _ => None,
        }
    }

    fn den_poly(&self, den: &[(u32, u32)]) -> Poly {
        let mut r = Poly::constant(Rat::ONE);
        for &(f, e) in den {
            r = r.mul(&self.polys[f as usize].pow(e));
        }
        r
    }

    /// canonical form
    fn canon(&mut self, num: Poly, den: Vec<(u32, u32)>) -> u32 {
        let mut num = num;
        let mut den = den;
        for _round in 0..50 {
            let mut changed = false;
            // reduce squares of sqrt / sin atoms in the numerator
            let mut ats = vec![];
            num.atoms(&mut ats);
            for a in ats {
                if num.max_exp(a) < 2 {
                    continue;
                }
                let sq = match self.square_of(a).or_else(|| self.sin_square(a)) {
                    Some(v) => v,
                    None => continue,
                };
                // group by power of a^2
                let mut groups: BTreeMap<u32, Vec<(Mono, Rat)>> = BTreeMap::new();
                for (m, c) in &num.0 {
                    let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
                    let k = e / 2;
                    let mut mm: Mono = m.iter().filter(|x| x.0 != a).cloned().collect();
                    if e % 2 == 1 {
                        let pos = mm.iter().position(|x| x.0 > a).unwrap_or(mm.len());
                        mm.insert(pos, (a, 1));
                    }
                    groups.entry(k).or_default().push((mm, *c));
                }
                let kmax = *groups.keys().max().unwrap();
                let dp = self.den_poly(&sq.den);
                let mut r = Poly::zero();
                for (k, ts) in groups {
                    let p = Poly::from_terms(ts);
                    r = r.add(&p.mul(&sq.num.pow(k)).mul(&dp.pow(kmax - k)));
                }
                num = r;
                for &(f, e) in &sq.den {
                    add_den(&mut den, f, e * kmax);
                }
                changed = true;
            }
            if num.is_zero() {
                return 0;
            }
            // sqrt atoms in the denominator
            let dcopy = den.clone();
            for (f, e) in dcopy {
                let at = match self.polys[f as usize].as_atom() {
                    Some(a) => a,
                    None => continue,
                };
                if let Some(sq) = self.square_of(at) {
                    if e >= 2 {
                        // s^2 in the denominator -> radicand
                        sub_den(&mut den, f, 2);
                        num = num.mul(&self.den_poly(&sq.den));
                        let (s, facs) = self.factor(&sq.num);
                        num = num.scale(s.inv());
                        for (g, k) in facs {
                            add_den(&mut den, g, k);
                        }
                        changed = true;
                    } else if let Some(q) = num.div_exact(&sq.num) {
                        // R/s = s
                        sub_den(&mut den, f, 1);
                        num = q.mul(&Poly::atom(at));
                        for &(g, k) in &sq.den {
                            add_den(&mut den, g, k);
                        }
                        changed = true;
                    }
                }
            }
            // cancel
            let dcopy = den.clone();
            for (f, e) in dcopy {
                let fp = self.polys[f as usize].clone();
                for _ in 0..e {
                    if !num.is_zero() && num.0.len() <= 4000 {
                        if let Some(q) = num.div_exact(&fp) {
                            num = q;
                            sub_den(&mut den, f, 1);
                            changed = true;
                            continue;
                        }
                    }
                    break;
                }
            }
            if !changed {
                break;
            }
        }
        if num.is_zero() {
            return 0;
        }
        den.sort();
        self.mk_val(Val { num, den })
    }

    /// Splits a polynomial into (scale, interned factors): monomial content, already known factors,
    /// and a primitive rest.
    fn factor(&mut self, p: &Poly) -> (Rat, Vec<(u32, u32)>) {
        let mut res = vec![];
        let (s, mut q) = p.primitive();
        for (a, e) in q.mono_content() {
            let f = self.intern(Poly::atom(a));
            add_den(&mut res, f, e);
            for _ in 0..e {
                q = q.div_exact(&Poly::atom(a)).unwrap();
            }
        }
        if q.as_const().is_none() {
            // perfect square?
            if let Some(r) = q.sqrt_exact() {
                let (s2, r) = r.primitive();
                let _ = s2;
                let f = self.intern(r);
                add_den(&mut res, f, 2);
            } else {
                let f = self.intern(q);
                add_den(&mut res, f, 1);
            }
        }
        (s, res)
    }

    pub fn v_neg(&mut self, a: u32) -> u32 {
        let v = self.vals[a as usize].clone();
        self.mk_val(Val { num: v.num.neg(), den: v.den })
    }

    pub fn v_add(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let x = self.vals[a as usize].clone();
        let y = self.vals[b as usize].clone();
        if x.den.is_empty() && y.den.is_empty() {
            return self.mk_val(Val { num: x.num.add(&y.num), den: vec![] });
        }
        let mut l = x.den.clone();
        for &(f, e) in &y.den {
            match l.iter_mut().find(|z| z.0 == f) {
                Some(z) => z.1 = z.1.max(e),
                None => l.push((f, e)),
            }
        }
        let comp = |d: &Vec<(u32, u32)>| -> Vec<(u32, u32)> {
            l.iter()
                .filter_map(|&(f, e)| {
                    let k = d.iter().find(|z| z.0 == f).map(|z| z.1).unwrap_or(0);
                    if e > k {
                        Some((f, e - k))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let cx = comp(&x.den);
        let cy = comp(&y.den);
        let n = x.num.mul(&self.den_poly(&cx)).add(&y.num.mul(&self.den_poly(&cy)));
        self.canon(n, l)
    }
    pub fn v_sub(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return 0;
        }
        let nb = self.v_neg(b);
        self.v_add(a, nb)
    }
    pub fn v_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        let x = self.vals[a as usize].clone();
        let y = self.vals[b as usize].clone();
        let mut den = x.den.clone();
        for &(f, e) in &y.den {
            add_den(&mut den, f, e);
        }
        let n = x.num.mul(&y.num);
        self.canon(n, den)
    }
    /// division, the divisor is known to be non zero
    pub fn v_div_raw(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return 0;
        }
        if a == b {
            return 1;
        }
        let x = self.vals[a as usize].clone();
        let y = self.vals[b as usize].clone();
        let mut num = x.num.mul(&self.den_poly(&y.den));
        let mut den = x.den.clone();
        let (s, facs) = self.factor(&y.num);
        num = num.scale(s.inv());
        for (f, e) in facs {
            add_den(&mut den, f, e);
        }
        self.canon(num, den)
    }

    // ---- signs and formulas

    /// Sign (mask) known syntactically or from the masks of the path condition.
    pub fn known_mask_poly(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.sign() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
        }
        let (s, q) = p.primitive();
        let mut m = 7u8;
        if let Some(&i) = self.poly_ix.get(&q) {
            if let Some(&k) = self.masks.get(&i) {
                m &= k;
            }
        }
        m &= self.syntactic_mask(&q);
        if s.sign() < 0 {
            m = flip(m);
        }
        m
    }
    fn atom_mask(&self, a: u32) -> u8 {
        let mut m = match self.atoms[a as usize].kind {
            Kind::Pi | Kind::Eps => POS,
            Kind::Sqrt(_) => ZER | POS,
            _ => 7,
        };
        if let Some(&i) = self.poly_ix.get(&Poly::atom(a)) {
            if let Some(&k) = self.masks.get(&i) {
                m &= k;
            }
        }
        if let Kind::Sqrt(r) = self.atoms[a as usize].kind {
            // radicand known non zero?
            let rv = &self.vals[r as usize];
            if let Some((_, q)) = Some(rv.num.primitive()) {
                if let Some(&i) = self.poly_ix.get(&q) {
                    if let Some(&k) = self.masks.get(&i) {
                        if k & ZER == 0 {
                            m &= !ZER;
                        }
                    }
                }
            }
            if rv.num.as_const().map(|c| !c.is_zero()).unwrap_or(false) {
                m &= !ZER;
            }
        }
        m
    }
    fn syntactic_mask(&self, p: &Poly) -> u8 {
        // sum of terms of one sign?
        let mut tot: u8 = ZER;
        for (m, c) in &p.0 {
            let mut t = if c.sign() > 0 { POS } else { NEG };
            for &(a, e) in m {
                let am = self.atom_mask(a);
                let am = if e % 2 == 0 {
                    if am & ZER == 0 {
                        POS
                    } else {
                        ZER | POS
                    }
                } else {
                    am
                };
                t = mul_mask(t, am);
            }
            tot = add_mask(tot, t);
            if tot == 7 {
                return 7;
            }
        }
        tot
    }

    /// Formula: sign of p in mask.
    pub fn sgn_poly(&mut self, p: &Poly, mask: u8) -> F {
        if let Some(c) = p.as_const() {
            let m = match c.sign() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
            return if m & mask != 0 { F::T } else { F::Fl };
        }
        let (s, mut q) = p.primitive();
        let mut mask = if s.sign() < 0 { flip(mask) } else { mask };
        // drop monomial content of known sign
        for (a, e) in q.mono_content() {
            let am = self.atom_mask(a);
            let drop = if am & ZER == 0 {
                if e % 2 == 0 || am == POS {
                    1
                } else if am == NEG {
                    -1
                } else {
                    0
                }
            } else {
                0
            };
            let reduce = if drop == 0 && e > 2 {
                // keep parity
                Some(if e % 2 == 0 { e - 2 } else { e - 1 })
            } else {
                None
            };
            if drop != 0 {
                for _ in 0..e {
                    q = q.div_exact(&Poly::atom(a)).unwrap();
                }
                if drop < 0 {
                    mask = flip(mask);
                }
            } else if let Some(k) = reduce {
                for _ in 0..k {
                    q = q.div_exact(&Poly::atom(a)).unwrap();
                }
            }
        }
        if let Some(c) = q.as_const() {
            let m = match c.sign() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
            return if m & mask != 0 { F::T } else { F::Fl };
        }
        // perfect squares: only zero / non zero matters
        if q.0.len() > 1 && q.0.len() < 200 {
            if let Some(r) = q.sqrt_exact() {
                let (_, r) = r.primitive();
                let mut m2 = 0;
                if mask & ZER != 0 {
                    m2 |= ZER;
                }
                if mask & POS != 0 {
                    m2 |= NEG | POS;
                }
                if m2 == 7 {
                    return F::T;
                }
                if m2 == 0 {
                    return F::Fl;
                }
                let k = self.known_mask_poly(&r);
                if k & !m2 == 0 {
                    return F::T;
                }
                if k & m2 == 0 {
                    return F::Fl;
                }
                let i = self.intern(r);
                return F::S(i, m2);
            }
        }
        let k = self.known_mask_poly(&q);
        if k & !mask == 0 {
            return F::T;
        }
        if k & mask == 0 {
            return F::Fl;
        }
        let i = self.intern(q);
        F::S(i, mask)
    }

    /// Sign of factor in current path: +1, -1 or 0 (unknown).
    fn factor_sign(&mut self, f: u32) -> i32 {
        let p = self.polys[f as usize].clone();
        let k = self.known_mask_poly(&p) & !ZER; // factors are non zero
        if k == POS {
            return 1;
        }
        if k == NEG {
            return -1;
        }
        0
    }

    pub fn sgn_val(&mut self, v: u32, mask: u8) -> F {
        let x = self.vals[v as usize].clone();
        let mut p = x.num.clone();
        let mut s = 1;
        for &(f, e) in &x.den {
            if e % 2 == 1 {
                match self.factor_sign(f) {
                    1 => {}
                    -1 => s = -s,
                    _ => p = p.mul(&self.polys[f as usize]),
                }
            }
        }
        // squares may have appeared
        if !x.den.is_empty() {
            let id = self.canon(p, vec![]);
            let y = self.vals[id as usize].clone();
            p = y.num.clone();
            for &(f, e) in &y.den {
                if e % 2 == 1 {
                    match self.factor_sign(f) {
                        1 => {}
                        -1 => s = -s,
                        _ => p = p.mul(&self.polys[f as usize]),
                    }
                }
            }
        }
        self.sgn_poly(&p, if s < 0 { flip(mask) } else { mask })
    }

    /// Simplify a formula using the masks of the current path.
    pub fn simp(&self, f: &F) -> F {
        match f {
            F::S(p, m) => {
                let k = self.known_mask_poly(&self.polys[*p as usize]);
                if k & !m == 0 {
                    F::T
                } else if k & m == 0 {
                    F::Fl
                } else {
                    f.clone()
                }
            }
            F::And(v) => F::and(v.iter().map(|x| self.simp(x)).collect()),
            F::Or(v) => F::or(v.iter().map(|x| self.simp(x)).collect()),
            _ => f.clone(),
        }
    }

    // ---- models

    pub fn atom_value(&mut self, mi: usize, a: u32) -> f64 {
        let ai = a as usize;
        {
            let m = &mut self.models[mi];
            if m.memo.len() <= ai {
                m.memo.resize(ai + 32, 0.0);
                m.done.resize(ai + 32, false);
            }
            if m.done[ai] {
                return m.memo[ai];
            }
        }
        let k = self.atoms[ai].kind.clone();
        let v = match k {
            Kind::Input(lo, hi) => {
                let name = self.atoms[ai].name.clone();
                let m = &self.models[mi];
                match m.named.get(&name) {
                    Some(v) => *v,
                    None => draw(m.seed, &name, lo, hi),
                }
            }
            Kind::Pi => std::f64::consts::PI,
            Kind::Eps => 1e-8,
            Kind::Sqrt(r) => self.val_value(mi, r).0.max(0.0).sqrt(),
            Kind::Atan2(y, x) => {
                let (y, _) = self.val_value(mi, y);
                let (x, _) = self.val_value(mi, x);
                y.atan2(x)
            }
            Kind::Atan(x) => self.val_value(mi, x).0.atan(),
            Kind::Acos(x) => self.val_value(mi, x).0.clamp(-1.0, 1.0).acos(),
            Kind::CosOf(t, d) => (self.atom_value(mi, t) / d as f64).cos(),
            Kind::SinOf(t, d) => (self.atom_value(mi, t) / d as f64).sin(),
            Kind::CosK(r) => r.to_f64().cos(),
            Kind::SinK(r) => r.to_f64().sin(),
        };
        let m = &mut self.models[mi];
        if m.memo.len() <= ai {
            m.memo.resize(ai + 32, 0.0);
            m.done.resize(ai + 32, false);
        }
        m.memo[ai] = v;
        m.done[ai] = true;
        v
    }
    pub fn val_value(&mut self, mi: usize, v: u32) -> (f64, f64) {
        let x = self.vals[v as usize].clone();
        let (n, _) = x.num.eval(&mut |a| self.atom_value(mi, a));
        let mut d = 1.0;
        for &(f, e) in &x.den {
            let p = self.polys[f as usize].clone();
            let (k, _) = p.eval(&mut |a| self.atom_value(mi, a));
            d *= k.powi(e as i32);
        }
        (n / d, 0.0)
    }
    /// Some(true/false) when the model robustly satisfies / violates f.
    pub fn eval_f(&mut self, mi: usize, f: &F) -> Option<bool> {
        match f {
            F::T => Some(true),
            F::Fl => Some(false),
            F::S(p, m) => {
                let q = self.polys[*p as usize].clone();
                let (v, mag) = q.eval(&mut |a| self.atom_value(mi, a));
                if v.is_nan() {
                    return None;
                }
                let s = if v == 0.0 {
                    ZER
                } else if v.abs() <= 1e-11 * mag.max(1e-30) {
                    return if *m == 7 { Some(true) } else { None };
                } else if v > 0.0 {
                    POS
                } else {
                    NEG
                };
                Some(m & s != 0)
            }
            F::And(v) => {
                let mut r = Some(true);
                for x in v.iter() {
                    match self.eval_f(mi, x) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            F::Or(v) => {
                let mut r = Some(false);
                for x in v.iter() {
                    match self.eval_f(mi, x) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
        }
    }

    // ---- SMT

    fn aname(&self, a: u32) -> String {
        format!("|{}|", self.atoms[a as usize].name)
    }
    fn num_str(n: i128) -> String {
        if n < 0 {
            format!("(- {})", n.unsigned_abs())
        } else {
            format!("{}", n)
        }
    }
    pub fn poly_str(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut ts = vec![];
        for (m, c) in &p.0 {
            let mut fs = vec![];
            if *c != Rat::ONE || m.is_empty() {
                fs.push(if c.d == 1 {
                    Engine::num_str(c.n)
                } else {
                    format!("(/ {} {})", Engine::num_str(c.n), c.d)
                });
            }
            for &(a, e) in m {
                for _ in 0..e {
                    fs.push(self.aname(a));
                }
            }
            if fs.len() == 1 {
                ts.push(fs.pop().unwrap());
            } else {
                ts.push(format!("(* {})", fs.join(" ")));
            }
        }
        if ts.len() == 1 {
            ts.pop().unwrap()
        } else {
            format!("(+ {})", ts.join(" "))
        }
    }
    pub fn f_str(&self, f: &F) -> String {
        match f {
            F::T => "true".into(),
            F::Fl => "false".into(),
            F::S(p, m) => {
                let s = self.poly_str(&self.polys[*p as usize]);
                match *m {
                    1 => format!("(< {} 0)", s),
                    2 => format!("(= {} 0)", s),
                    3 => format!("(<= {} 0)", s),
                    4 => format!("(> {} 0)", s),
                    5 => format!("(not (= {} 0))", s),
                    6 => format!("(>= {} 0)", s),
                    7 => "true".into(),
                    _ => "false".into(),
                }
            }
            F::And(v) => format!("(and {})", v.iter().map(|x| self.f_str(x)).collect::<Vec<_>>().join(" ")),
            F::Or(v) => format!("(or {})", v.iter().map(|x| self.f_str(x)).collect::<Vec<_>>().join(" ")),
        }
    }
    fn f_atoms(&self, f: &F) -> Vec<u32> {
        let mut ps = vec![];
        f.polys(&mut ps);
        let mut r = vec![];
        for p in ps {
            self.polys[p as usize].atoms(&mut r);
        }
        r
    }
    /// atoms of f together with every atom reachable through axioms
    pub fn closure(&self, f: &F) -> Vec<u32> {
        let mut seen = self.f_atoms(f);
        let mut i = 0;
        while i < seen.len() {
            let a = seen[i];
            for ax in &self.atoms[a as usize].axioms {
                for b in self.f_atoms(ax) {
                    if !seen.contains(&b) {
                        seen.push(b);
                    }
                }
            }
            i += 1;
        }
        seen
    }

    fn solver_start(&mut self) {
        let mut p = Proc::spawn(&["z3", "-in", "-smt2"]);
        p.send("(set-option :global-declarations true)");
        p.send("(set-option :pp.decimal true)");
        p.send("(set-option :pp.decimal_precision 17)");
        self.solver = Some(p);
        self.sstack.clear();
        self.sax.clear();
        self.sdecl.clear();
    }
    fn solver_assert(&mut self, f: &F) -> Vec<u32> {
        // declares atoms, asserts axioms that are not yet on the stack, asserts f
        let cl = self.closure(f);
        let mut out = String::new();
        let mut newax = vec![];
        for a in cl {
            if self.sdecl.insert(a) {
                out.push_str(&format!("(declare-const {} Real)\n", self.aname(a)));
            }
            if !self.sax.iter().any(|l| l.contains(&a)) && !newax.contains(&a) {
                newax.push(a);
            }
        }
        // second pass so that all names are declared first
        for &a in &newax {
            for ax in &self.atoms[a as usize].axioms {
                out.push_str(&format!("(assert {})\n", self.f_str(ax)));
            }
        }
        out.push_str(&format!("(assert {})", self.f_str(f)));
        self.solver.as_mut().unwrap().send(&out);
        newax
    }
    fn solver_sync(&mut self) {
        if self.solver.as_ref().map(|p| p.dead).unwrap_or(true) {
            self.solver = None;
            self.solver_start();
        }
        let want: Vec<F> = self.pc.iter().filter(|x| !x.1).map(|x| x.0.clone()).collect();
        let mut k = 0;
        while k < want.len() && k < self.sstack.len() && want[k] == self.sstack[k] {
            k += 1;
        }
        let pops = self.sstack.len() - k;
        if pops > 0 {
            self.solver.as_mut().unwrap().send(&format!("(pop {})", pops));
            self.sstack.truncate(k);
            self.sax.truncate(k);
        }
        for f in want.into_iter().skip(k) {
            self.solver.as_mut().unwrap().send("(push)");
            let ax = self.solver_assert(&f);
            self.sstack.push(f);
            self.sax.push(ax);
        }
    }
    /// Satisfiability of the path condition together with f.
    pub fn query(&mut self, f: &F, ms: u64) -> Ans {
        if *f == F::Fl {
            return Ans::Unsat;
        }
        let t0 = Instant::now();
        self.stat("feasibility_queries");
        self.solver_sync();
        self.solver.as_mut().unwrap().send("(push)");
        self.sax.push(vec![]);
        let ax = self.solver_assert(f);
        self.sax.pop();
        let mut names: Vec<String> = vec![];
        let mut all: Vec<u32> = self.sax.iter().flatten().cloned().collect();
        all.extend(ax);
        for a in all {
            if matches!(self.atoms[a as usize].kind, Kind::Input(..)) {
                let n = self.aname(a);
                if !names.contains(&n) {
                    names.push(n);
                }
            }
        }
        let mut ans = Ans::Unknown;
        for (tactic, t) in [
            (format!("(check-sat-using (try-for qfnra-nlsat {}))", ms), ms),
            (format!("(set-option :timeout {})\n(check-sat)", ms / 3 + 20), ms),
        ] {
            let p = self.solver.as_mut().unwrap();
            p.send(&tactic);
            p.flush();
            let mut r = Ans::Unknown;
            let tq = Instant::now();
            loop {
                match p.line(Duration::from_millis(t * 3 + 2000)) {
                    None => {
                        p.kill();
                        break;
                    }
                    Some(l) => {
                        let l = l.trim().to_string();
                        if l == "unsat" {
                            r = Ans::Unsat;
                            break;
                        }
                        if l == "unknown" || l == "timeout" {
                            break;
                        }
                        if l == "sat" {
                            let mut s = String::new();
                            if !names.is_empty() {
                                p.send(&format!("(get-value ({}))", names.join(" ")));
                            }
                            p.send("(echo \"@@\")");
                            p.flush();
                            loop {
                                match p.line(Duration::from_secs(5)) {
                                    None => {
                                        p.kill();
                                        break;
                                    }
                                    Some(l) => {
                                        if l.trim() == "@@" {
                                            break;
                                        }
                                        s.push_str(&l);
                                        s.push(' ');
                                    }
                                }
                            }
                            let vs = crate::smt::parse_values(&s)
                                .into_iter()
                                .map(|(n, v)| (n.trim_matches('|').to_string(), v))
                                .collect();
                            r = Ans::Sat(vs);
                            break;
                        }
                        if l.starts_with("(error") && std::env::var("SYM_DEBUG").is_ok() {
                            eprintln!("z3: {}", l);
                        }
                    }
                }
            }
            if std::env::var("SYM_Q").is_ok() {
                eprintln!("q {} {:?} {}ms depth {}", &tactic[..20], match r { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unk" }, tq.elapsed().as_millis(), self.sstack.len());
            }
            if self.solver.as_ref().unwrap().dead {
                break;
            }
            if r != Ans::Unknown {
                ans = r;
                break;
            }
        }
        if !self.solver.as_ref().unwrap().dead {
            self.solver.as_mut().unwrap().send("(pop)");
        }
        if ans == Ans::Unknown {
            self.stat("feasibility_unknown");
        }
        self.solver_ms += t0.elapsed().as_millis();
        ans
    }

    pub fn add_model(&mut self, vals: &[(String, f64)]) -> usize {
        let seed = splitmix(self.opts.seed ^ self.models.len() as u64 ^ 0x9999);
        let m = Model {
            named: vals.iter().cloned().collect(),
            seed,
            from_solver: true,
            memo: vec![],
            done: vec![],
        };
        self.models.push(m);
        self.models.len() - 1
    }

    // ---- path condition

    pub fn push_pc(&mut self, f: F, implied: bool) {
        if f == F::T {
            return;
        }
        self.note_masks(&f);
        let live = std::mem::take(&mut self.live);
        let mut keep = vec![];
        for mi in live {
            if self.eval_f(mi, &f) == Some(true) {
                keep.push(mi);
            }
        }
        self.live = keep;
        self.pc.push((f, implied));
    }
    fn note_masks(&mut self, f: &F) {
        match f {
            F::S(p, m) => {
                let e = self.masks.entry(*p).or_insert(7);
                *e &= m;
            }
            F::And(v) => {
                for x in v.iter() {
                    self.note_masks(x)
                }
            }
            _ => {}
        }
    }

    pub fn check_deadline(&self) -> Result<(), Stop> {
        if Instant::now() > self.opts.deadline {
            return Err(Stop::Undecided("time budget".into()));
        }
        Ok(())
    }

    /// Err when the current path belongs to another shard
    pub fn shard_check(&mut self) -> Result<(), Stop> {
        if self.shard_done {
            return Ok(());
        }
        self.shard_done = true;
        if self.shard_code % self.opts.shard.1 != self.opts.shard.0 {
            return Err(Stop::OtherShard);
        }
        Ok(())
    }
    fn same(&self, d: &Dec, tag: u32) -> Result<(), Stop> {
        if d.tag != tag {
            return Err(Stop::Undecided("re-execution took another path".into()));
        }
        Ok(())
    }
    /// Forgets everything that belongs to the previous path.
    pub fn new_path(&mut self, prefix: Vec<Dec>, no: usize) {
        self.prefix = prefix;
        self.log.clear();
        self.pc.clear();
        self.masks.clear();
        self.live = (0..self.models.len()).collect();
        self.path_no = no;
        self.path_choices.clear();
        self.allow_undef = false;
        self.assumed_after_confirm = true;
        self.located.clear();
        self.known_angles.clear();
        self.sqrt_ix.clear();
        self.atan_list.clear();
        self.cs_used.clear();
        self.shard_code = 0;
        self.shard_done = false;
    }

    /// Branch on f.
    pub fn decide(&mut self, f: F) -> Result<bool, Stop> {
        let f = self.simp(&f);
        match f {
            F::T => return Ok(true),
            F::Fl => return Ok(false),
            _ => {}
        }
        self.check_deadline()?;
        self.shard_check()?;
        let tag = f_tag(&f);
        let pos = self.log.len();
        if pos < self.prefix.len() {
            let d = self.prefix[pos];
            self.same(&d, tag)?;
            self.log.push(d);
            let g = if d.choice == 1 { f.clone() } else { f.not() };
            if d.confirmed {
                self.assumed_after_confirm = false;
            }
            self.push_pc(g, d.implied);
            return Ok(d.choice == 1);
        }
        let nf = f.not();
        let (mut t, mut n) = (None, None); // Some((feasible, confirmed))
        let live = self.live.clone();
        for mi in live {
            match self.eval_f(mi, &f) {
                Some(true) => t = Some((true, true)),
                Some(false) => n = Some((true, true)),
                None => {}
            }
            if t.is_some() && n.is_some() {
                break;
            }
        }
        let ms = self.opts.feas_ms;
        for (g, r) in [(&f, &mut t), (&nf, &mut n)] {
            if r.is_none() {
                *r = Some(match self.query(g, ms) {
                    Ans::Unsat => (false, false),
                    Ans::Unknown => (true, false),
                    Ans::Sat(v) => {
                        let mi = self.add_model(&v);
                        self.relive(mi);
                        (true, true)
                    }
                });
            }
        }
        let (t, n) = (t.unwrap(), n.unwrap());
        let choice = match (t.0, n.0) {
            (false, false) => return Err(Stop::Infeasible),
            (true, false) => true,
            (false, true) => false,
            (true, true) => {
                let mut alt = self.log.clone();
                alt.push(Dec { choice: 0, implied: false, confirmed: n.1, tag });
                self.work.push(alt);
                true
            }
        };
        let d = Dec {
            choice: choice as u16,
            implied: !(t.0 && n.0),
            confirmed: if choice { t.1 } else { n.1 },
            tag,
        };
        if d.confirmed {
            self.assumed_after_confirm = false;
        }
        self.log.push(d);
        self.push_pc(if choice { f } else { nf }, d.implied);
        Ok(choice)
    }
    /// adds a model to the live set if it satisfies the path condition
    fn relive(&mut self, mi: usize) {
        let pc: Vec<F> = self.pc.iter().map(|x| x.0.clone()).collect();
        for f in &pc {
            if self.eval_f(mi, f) != Some(true) {
                return;
            }
        }
        self.live.push(mi);
    }

    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        let pos = self.log.len();
        let c = if pos < self.prefix.len() {
            self.prefix[pos].choice as usize
        } else {
            for k in (1..n).rev() {
                let mut alt = self.log.clone();
                alt.push(Dec { choice: k as u16, implied: true, confirmed: false, tag: n as u32 });
                self.work.push(alt);
            }
            0
        };
        self.log.push(Dec { choice: c as u16, implied: true, confirmed: false, tag: n as u32 });
        self.path_choices.push((name.to_string(), c));
        if !self.shard_done {
            self.shard_code = self.shard_code * n + c;
        }
        c
    }

    /// assume f (precondition)
    pub fn assume(&mut self, f: F) -> Result<(), Stop> {
        let f = self.simp(&f);
        match f {
            F::T => return Ok(()),
            F::Fl => return Err(Stop::AssumeFalse),
            _ => {}
        }
        self.assumed_after_confirm = true;
        self.push_pc(f, false);
        Ok(())
    }

    /// makes sure the path condition is satisfiable, when that is known
    pub fn feasible_now(&mut self) -> bool {
        if !self.live.is_empty() {
            return true;
        }
        let pos = self.log.len();
        if pos < self.prefix.len() {
            return true;
        }
        match self.query(&F::T, self.opts.feas_ms) {
            Ans::Unsat => false,
            Ans::Sat(v) => {
                let mi = self.add_model(&v);
                self.relive(mi);
                true
            }
            _ => true,
        }
    }

    pub fn input_names(&self) -> Vec<String> {
        self.atoms
            .iter()
            .filter(|a| matches!(a.kind, Kind::Input(..)))
            .map(|a| a.name.clone())
            .collect()
    }
    pub fn model_inputs(&mut self, mi: usize) -> Vec<(String, f64)> {
        let ids: Vec<u32> = (0..self.atoms.len() as u32)
            .filter(|a| matches!(self.atoms[*a as usize].kind, Kind::Input(..)))
            .collect();
        let mut r = vec![];
        for a in ids {
            let v = self.atom_value(mi, a);
            r.push((self.atoms[a as usize].name.clone(), v));
        }
        for (n, c) in &self.path_choices {
            r.push((format!("#{}", n), *c as f64));
        }
        r
    }

    /// Full SMT script: pc (selected) + negated goal.
    pub fn script(&self, pcs: &[F], ng: &F) -> (String, Vec<String>) {
        let mut s = String::from("(set-logic QF_NRA)\n(set-option :pp.decimal true)\n");
        let mut ats: Vec<u32> = vec![];
        for f in pcs.iter().chain(std::iter::once(ng)) {
            for a in self.closure(f) {
                if !ats.contains(&a) {
                    ats.push(a);
                }
            }
        }
        let mut vals = vec![];
        for &a in &ats {
            s.push_str(&format!("(declare-const {} Real)\n", self.aname(a)));
            if matches!(self.atoms[a as usize].kind, Kind::Input(..)) {
                vals.push(self.aname(a));
            }
        }
        for &a in &ats {
            for ax in &self.atoms[a as usize].axioms {
                s.push_str(&format!("(assert {})\n", self.f_str(ax)));
            }
        }
        for f in pcs {
            s.push_str(&format!("(assert {})\n", self.f_str(f)));
        }
        s.push_str(&format!("(assert {})\n", self.f_str(ng)));
        (s, vals)
    }

    /// Discharges path-condition => goal.
    pub fn obligation(&mut self, label: &str, goal: F) {
        let t0 = Instant::now();
        let parts: Vec<F> = match &goal {
            F::And(v) => v.iter().cloned().collect(),
            g => vec![g.clone()],
        };
        for g in parts {
            let st = self.discharge(&g);
            if self.opts.verbose && !matches!(st, Status::Discharged(_)) {
                eprintln!("  [{}] path {} : {:?}", label, self.path_no, st);
                if std::env::var("SYM_DUMP").is_ok() {
                    let pcs: Vec<F> = self.pc.iter().map(|x| x.0.clone()).collect();
                    let (s, _) = self.script(&pcs, &g.not());
                    let fname = format!("/tmp/symdump_{}_{}.smt2", label.replace([' ', '/'], "_"), self.path_no);
                    let _ = std::fs::write(&fname, format!("{}(check-sat)\n", s));
                    eprintln!("    dumped {} choices {:?}", fname, self.path_choices);
                }
            }
            self.obls.push(Obl {
                label: label.to_string(),
                path: self.path_no,
                status: st,
                ms: t0.elapsed().as_millis(),
            });
        }
    }

    fn discharge(&mut self, goal: &F) -> Status {
        let g = self.simp(goal);
        if g == F::T {
            self.stat("by_normal_form");
            return Status::Discharged("normal-form".into());
        }
        let ng = g.not();
        // cheap refutation by a model already known
        let live = self.live.clone();
        for mi in live {
            if self.eval_f(mi, &ng) == Some(true) {
                let v = self.model_inputs(mi);
                return Status::Refuted(v);
            }
        }
        let (a1, a2) = (self.opts.feas_ms * 2, self.opts.obl_ms);
        match self.query(&ng, a1) {
            Ans::Unsat => {
                self.stat("by_z3_incremental");
                return Status::Discharged("z3".into());
            }
            Ans::Sat(v) => return self.refuted(v, &ng),
            Ans::Unknown => {}
        }
        let t0 = Instant::now();
        let full: Vec<F> = self.pc.iter().filter(|x| !x.1).map(|x| x.0.clone()).collect();
        let with_implied: Vec<F> = self.pc.iter().map(|x| x.0.clone()).collect();
        // cone of influence: constraints that share atoms with the goal
        let ga = self.closure(&ng);
        let cone: Vec<F> = with_implied
            .iter()
            .filter(|f| self.f_atoms(f).iter().all(|a| ga.contains(a)))
            .cloned()
            .collect();
        let (s_full, vals) = self.script(&full, &ng);
        let (s_cone, _) = self.script(&cone, &ng);
        let (s_impl, _) = self.script(&with_implied, &ng);
        let left = self.opts.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        let ms = a2.min(left);
        if ms < 500 {
            return Status::Undecided("time budget".into());
        }
        let z3t = format!("-T:{}", ms / 1000 + 1);
        let ct = format!("--tlimit={}", ms);
        let mut jobs: Vec<(&str, Vec<&str>, &String, bool)> = vec![
            ("z3", vec!["z3", "-in", "-smt2", &z3t], &s_full, true),
            ("cvc5", vec!["cvc5", "--lang=smt2", "--produce-models", &ct, "-"], &s_full, false),
            ("z3-5", vec!["z3-new", "-in", "-smt2", &z3t], &s_full, true),
        ];
        if cone.len() != with_implied.len() {
            jobs.push(("z3", vec!["z3", "-in", "-smt2", &z3t], &s_cone, false));
            jobs.push(("z3-5", vec!["z3-new", "-in", "-smt2", &z3t], &s_cone, false));
        }
        if s_impl != s_full {
            jobs.push(("z3", vec!["z3", "-in", "-smt2", &z3t], &s_impl, true));
        }
        // escalate: short, then long, in parallel threads
        let (tx, rx) = std::sync::mpsc::channel();
        let n = jobs.len();
        for (name, cmd, script, trust_sat) in jobs {
            let tx = tx.clone();
            let name = name.to_string();
            let cmd: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
            let script = script.clone();
            let vals = vals.clone();
            std::thread::spawn(move || {
                let c: Vec<&str> = cmd.iter().map(|x| x.as_str()).collect();
                let vals = if trust_sat { vals } else { vec![] };
                let a = run_fresh(&c, &script, &vals, Duration::from_millis(ms + 1500));
                let _ = tx.send((name, trust_sat, a));
            });
        }
        drop(tx);
        let mut res = Status::Undecided("solvers gave no answer".into());
        for _ in 0..n {
            if let Ok((name, trust, a)) = rx.recv() {
                match a {
                    Ans::Unsat => {
                        self.stat(&format!("by_{}_fresh", name));
                        res = Status::Discharged(name);
                        break;
                    }
                    Ans::Sat(v) if trust => {
                        let v = v.into_iter().map(|(n, x)| (n.trim_matches('|').to_string(), x)).collect();
                        res = self.refuted(v, &ng);
                        break;
                    }
                    _ => {}
                }
            } else {
                break;
            }
        }
        self.solver_ms += t0.elapsed().as_millis();
        res
    }
    /// A solver model is a refutation only when the true functions (sqrt, atan, ...) agree with it.
    fn refuted(&mut self, v: Vec<(String, f64)>, ng: &F) -> Status {
        let mi = self.add_model(&v);
        let fs: Vec<F> = self.pc.iter().map(|x| x.0.clone()).chain(std::iter::once(ng.clone())).collect();
        let ins = self.model_inputs(mi);
        for f in &fs {
            if self.eval_f(mi, f) == Some(false) {
                return Status::Candidate(ins);
            }
        }
        Status::Refuted(ins)
    }

    // ---- functions

    pub fn abs_known(&mut self, v: u32) -> Option<u32> {
        match self.sgn_val(v, POS | ZER) {
            F::T => return Some(v),
            F::Fl => return Some(self.v_neg(v)),
            _ => {}
        }
        if self.sgn_val(v, NEG | ZER) == F::T {
            return Some(self.v_neg(v));
        }
        None
    }

    /// square root; Err(poly value p) asks the caller to produce |p| instead (perfect square)
    pub fn sqrt_raw(&mut self, v: u32) -> Result<u32, (u32, u32)> {
        if let Some(c) = self.as_const(v) {
            if let Some(r) = c.sqrt_exact() {
                return Ok(self.v_const(r));
            }
            // sqrt(n/d) = k sqrt(m) / d with n d = k^2 m
            let mut m = c.n.checked_mul(c.d).unwrap_or(0);
            if m > 0 {
                let mut k = 1i128;
                for f in 2..200i128 {
                    while m % (f * f) == 0 {
                        m /= f * f;
                        k *= f;
                    }
                }
                if k != 1 || c.d != 1 {
                    let mv = self.v_const(Rat::int(m));
                    let kv = self.v_const(Rat::new(k, c.d));
                    let r = self.sqrt_raw(mv)?;
                    return Ok(self.v_mul(kv, r));
                }
            }
        }
        let x = self.vals[v as usize].clone();
        // perfect square?
        if x.den.iter().all(|d| d.1 % 2 == 0) {
            if let Some(p) = x.num.sqrt_exact() {
                let den: Vec<(u32, u32)> = x.den.iter().map(|d| (d.0, d.1 / 2)).collect();
                let id = self.canon(p, den);
                return Err((id, 1));
            }
        }
        if let Some(&(_, a)) = self.sqrt_ix.iter().find(|x| x.0 == v) {
            return Ok(self.v_atom(a));
        }
        // square multiple of a radicand met on this path?
        for (r, a) in self.sqrt_ix.clone() {
            let q = self.v_div_unchecked(v, r);
            if let Some(q) = q {
                let y = self.vals[q as usize].clone();
                if y.den.iter().all(|d| d.1 % 2 == 0) {
                    if let Some(p) = y.num.sqrt_exact() {
                        let den: Vec<(u32, u32)> = y.den.iter().map(|d| (d.0, d.1 / 2)).collect();
                        let id = self.canon(p, den);
                        let av = self.v_atom(a);
                        return Err((id, av));
                    }
                }
            }
        }
        let name = format!("sqrt!{}", v);
        let a = self.new_atom(&name, Kind::Sqrt(v));
        if self.atoms[a as usize].axioms.is_empty() {
            let nonneg = self.intern(Poly::atom(a));
            let lhs = Poly::atom(a).pow(2).mul(&self.den_poly(&x.den));
            let eq = lhs.sub(&x.num);
            let (_, eq) = eq.primitive();
            let e = self.intern(eq);
            self.atoms[a as usize].axioms = vec![F::S(nonneg, POS | ZER), F::S(e, ZER)];
        }
        self.sqrt_ix.push((v, a));
        Ok(self.v_atom(a))
    }
    /// v / r when the numerator of r divides numerator of v exactly (r's radicand is non zero or the
    /// result is only used as a square factor)
    fn v_div_unchecked(&mut self, v: u32, r: u32) -> Option<u32> {
        if v == r {
            return Some(1);
        }
        let x = self.vals[v as usize].clone();
        let y = self.vals[r as usize].clone();
        if y.num.as_const().is_some() {
            return None;
        }
        let q = x.num.div_exact(&y.num)?;
        let num = q.mul(&self.den_poly(&y.den));
        Some(self.canon(num, x.den))
    }

    /// Remembers an angle so that atan2 of one of its direction vectors is recognised.
    pub fn know_angle(&mut self, v: u32) -> Result<(), Stop> {
        let (c, s) = self.cos_sin(v)?;
        if !self.known_angles.iter().any(|k| k.0 == v) {
            self.known_angles.push((v, c, s));
        }
        Ok(())
    }
    /// A known angle whose direction is parallel to (x, y), with the value that tells the sense.
    pub fn match_angle(&mut self, y: u32, x: u32) -> Option<(u32, u32)> {
        for (a, c, s) in self.known_angles.clone() {
            let p = self.v_mul(y, c);
            let q = self.v_mul(x, s);
            if self.v_sub(p, q) == 0 {
                let p = self.v_mul(x, c);
                let q = self.v_mul(y, s);
                let d = self.v_add(p, q);
                return Some((a, d));
            }
        }
        None
    }

    /// Runs f without the masks of the current path (for facts that hold on every path).
    fn pure<R>(&mut self, f: impl FnOnce(&mut Engine) -> R) -> R {
        let m = std::mem::take(&mut self.masks);
        let r = f(self);
        self.masks = m;
        r
    }

    fn kind_atom(&mut self, key: &str, kind: Kind) -> u32 {
        if let Some(&a) = self.kind_ix.get(key) {
            return a;
        }
        let a = self.new_atom(key, kind);
        self.kind_ix.insert(key.to_string(), a);
        a
    }

    /// atan2 atom (its arguments are not both zero)
    pub fn atan2_raw(&mut self, y: u32, x: u32) -> u32 {
        self.pure(|e| e.atan2_raw_(y, x))
    }
    fn atan2_raw_(&mut self, y: u32, x: u32) -> u32 {
        if let Some(&a) = self.atan2_ix.get(&(y, x)) {
            return self.v_atom(a);
        }
        let name = format!("atan2!{}!{}", y, x);
        let a = self.new_atom(&name, Kind::Atan2(y, x));
        self.atan2_ix.insert((y, x), a);
        let (p, pi) = (Poly::atom(a), Poly::atom(self.pi));
        let f1 = self.sgn_poly(&p.sub(&pi), NEG | ZER);
        let f2 = self.sgn_poly(&p.add(&pi), POS);
        // quadrant facts
        let (yp, xp) = (self.sgn_val(y, POS), self.sgn_val(x, POS));
        let (yn, xn) = (self.sgn_val(y, NEG), self.sgn_val(x, NEG));
        let (yz, xz) = (self.sgn_val(y, ZER), self.sgn_val(x, ZER));
        let half = pi.scale(Rat::new(1, 2));
        let s = |e: &mut Engine, q: Poly, m: u8| e.sgn_poly(&q, m);
        let mut ax = vec![f1, f2];
        let a_pos = s(self, p.clone(), POS);
        let a_neg = s(self, p.clone(), NEG);
        let a_zero = s(self, p.clone(), ZER);
        let a_lt_half = s(self, p.sub(&half), NEG);
        let a_gt_half = s(self, p.sub(&half), POS);
        let a_eq_half = s(self, p.sub(&half), ZER);
        let a_gt_mhalf = s(self, p.add(&half), POS);
        let a_lt_mhalf = s(self, p.add(&half), NEG);
        let a_eq_mhalf = s(self, p.add(&half), ZER);
        let a_lt_pi = s(self, p.sub(&pi), NEG);
        let a_eq_pi = s(self, p.sub(&pi), ZER);
        let cases = vec![
            F::and(vec![yp.clone(), xp.clone(), a_pos.clone(), a_lt_half.clone()]),
            F::and(vec![yp.clone(), xz.clone(), a_eq_half]),
            F::and(vec![yp, xn.clone(), a_gt_half, a_lt_pi]),
            F::and(vec![yz.clone(), xp.clone(), a_zero]),
            F::and(vec![yz, xn.clone(), a_eq_pi]),
            F::and(vec![yn.clone(), xp, a_neg, a_gt_mhalf]),
            F::and(vec![yn.clone(), xz, a_eq_mhalf]),
            F::and(vec![yn, xn, a_lt_mhalf]),
        ];
        ax.push(F::or(cases));
        self.atoms[a as usize].axioms = ax;
        self.v_atom(a)
    }

    /// tan(k pi/8), k = 1 or 3
    pub fn tan_pi8(&mut self, k: i128) -> u32 {
        let two = self.v_const(Rat::int(2));
        let r = self.sqrt_raw(two).unwrap_or(1);
        let c = self.v_const(Rat::int(if k == 1 { -1 } else { 1 }));
        self.v_add(r, c)
    }
    /// tangent of a multiple of pi/8 (None: not of that form, or a pole)
    pub fn tan_known(&mut self, v: u32) -> Option<u32> {
        let x = self.vals[v as usize].clone();
        if !x.den.is_empty() || x.num.0.len() != 1 {
            return None;
        }
        let (m, k) = &x.num.0[0];
        if m.len() != 1 || m[0] != (self.pi, 1) {
            return None;
        }
        let q = k.mul(Rat::int(8));
        if q.d != 1 {
            return None;
        }
        let n = q.n.rem_euclid(8);
        Some(match n {
            0 => 0,
            1 | 3 => self.tan_pi8(n),
            2 => 1,
            4 => return None,
            5 | 7 => {
                let t = self.tan_pi8(8 - n);
                self.v_neg(t)
            }
            _ => self.v_neg(1),
        })
    }
    pub fn atan_raw(&mut self, b: u32) -> u32 {
        // odd function: one atom for b and -b
        let neg = {
            let v = &self.vals[b as usize];
            v.num.0.first().map(|t| t.1.n < 0).unwrap_or(false)
        };
        if neg {
            let m = self.v_neg(b);
            let r = self.atan_raw(m);
            return self.v_neg(r);
        }
        if self.as_const(b).map(|c| c.n.abs() == 1 && c.d == 1).unwrap_or(false) {
            let q = Poly::atom(self.pi).scale(self.as_const(b).unwrap().mul(Rat::new(1, 4)));
            return self.mk_val(Val { num: q, den: vec![] });
        }
        for k in [1i128, 3] {
            let t = self.tan_pi8(k);
            let nt = self.v_neg(t);
            if b == t || b == nt {
                let q = Poly::atom(self.pi).scale(Rat::new(if b == t { k } else { -k }, 8));
                return self.mk_val(Val { num: q, den: vec![] });
            }
        }
        let v = self.pure(|e| e.atan_raw_(b));
        let a = match self.vals[v as usize].num.as_atom() {
            Some(a) => a,
            None => return v,
        };
        if !self.atan_list.iter().any(|x| x.1 == a) {
            // atan is increasing: facts about the arctangents of this path
            let prev = self.atan_list.clone();
            self.atan_list.push((b, a));
            for (b2, a2) in prev {
                let db = self.v_sub(b, b2);
                let dp = Poly::atom(a).sub(&Poly::atom(a2));
                let mut fs = vec![];
                for m in [NEG, ZER, POS] {
                    let c = self.sgn_val(db, m);
                    let g = self.sgn_poly(&dp, m);
                    fs.push(F::or(vec![c.not(), g]));
                }
                self.push_pc(F::and(fs), false);
            }
        }
        v
    }
    fn atan_raw_(&mut self, b: u32) -> u32 {
        if b == 0 {
            return 0;
        }
        let name = format!("atan!{}", b);
        let a = self.new_atom(&name, Kind::Atan(b));
        if self.atoms[a as usize].axioms.is_empty() {
            let (p, pi) = (Poly::atom(a), Poly::atom(self.pi));
            let half = pi.scale(Rat::new(1, 2));
            let f1 = self.sgn_poly(&p.sub(&half), NEG);
            let f2 = self.sgn_poly(&p.add(&half), POS);
            let ap = self.intern(p);
            let mut ax = vec![f1, f2];
            for m in [NEG, ZER, POS] {
                let c = self.sgn_val(b, m);
                ax.push(F::or(vec![c.not(), F::S(ap, m)]));
            }
            // atan is increasing, atan(1) = pi/4
            let quarter = pi.scale(Rat::new(1, 4));
            let mut refs: Vec<(u32, Poly)> = vec![(1, quarter.clone())];
            let minus_one = self.v_neg(1);
            refs.push((minus_one, quarter.neg()));
            for (b2, p2) in refs {
                let db = self.v_sub(b, b2);
                let dp = Poly::atom(a).sub(&p2);
                for m in [NEG, ZER, POS] {
                    let c = self.sgn_val(db, m);
                    let g = self.sgn_poly(&dp, m);
                    ax.push(F::or(vec![c.not(), g]));
                }
            }
            self.atoms[a as usize].axioms = ax;
        }
        self.v_atom(a)
    }

    /// (cos, sin) of atom/d for an angle atom
    fn cs_atom(&mut self, a: u32, d: i128) -> (u32, u32) {
        let kind = self.atoms[a as usize].kind.clone();
        match (&kind, d) {
            (Kind::Atan2(y, x), 1) => {
                let (y, x) = (*y, *x);
                let xx = self.v_mul(x, x);
                let yy = self.v_mul(y, y);
                let r2 = self.v_add(xx, yy);
                let r = match self.sqrt_raw(r2) {
                    Ok(r) => Some(r),
                    Err((p, q)) => {
                        // |p| * q with known sign only
                        self.abs_known(p).map(|p| self.v_mul(p, q))
                    }
                };
                if let Some(r) = r {
                    let c = self.v_div_raw(x, r);
                    let s = self.v_div_raw(y, r);
                    return (c, s);
                }
            }
            (Kind::Atan(b), 1) => {
                let b = *b;
                let bb = self.v_mul(b, b);
                let r2 = self.v_add(bb, 1);
                if let Ok(r) = self.sqrt_raw(r2) {
                    let c = self.v_div_raw(1, r);
                    let s = self.v_div_raw(b, r);
                    return (c, s);
                }
            }
            _ => {}
        }
        // fresh cos / sin pair for atom/d
        self.cs_used.insert(a);
        let c = self.kind_atom(&format!("cos{}_{}", a, d), Kind::CosOf(a, d));
        let s = self.kind_atom(&format!("sin{}_{}", a, d), Kind::SinOf(a, d));
        if self.atoms[c as usize].axioms.is_empty() {
            let saved = std::mem::take(&mut self.masks);
            let circ = Poly::atom(c).pow(2).add(&Poly::atom(s).pow(2)).sub(&Poly::constant(Rat::ONE));
            let (_, circ) = circ.primitive();
            let ci = self.intern(circ);
            let mut ax = vec![F::S(ci, ZER)];
            if d > 1 && matches!(kind, Kind::Atan2(..)) {
                // the whole angle is d times this one
                let cv = self.v_atom(c);
                let sv = self.v_atom(s);
                let (cd, sd) = self.multi_angle(cv, sv, d);
                let (cw, sw) = self.cs_atom(a, 1);
                for (p, q) in [(cd, cw), (sd, sw)] {
                    let df = self.v_sub(p, q);
                    ax.push(self.sgn_val(df, ZER));
                }
                // |atom/d| <= pi/d
                let cp = self.intern(Poly::atom(c));
                ax.push(F::S(cp, if d == 2 { POS | ZER } else { POS }));
                if d >= 4 {
                    // cos >= sqrt(1/2): 2c^2 >= 1
                    let q = Poly::atom(c).pow(2).scale(Rat::int(2)).sub(&Poly::constant(Rat::ONE));
                    ax.push(self.sgn_poly(&q, POS | ZER));
                }
                let sp = self.intern(Poly::atom(s));
                let ap = self.intern(Poly::atom(a));
                for m in [NEG, ZER, POS] {
                    ax.push(F::or(vec![F::S(ap, m).not(), F::S(sp, m)]));
                }
            }
            self.atoms[c as usize].axioms = ax.clone();
            self.atoms[s as usize].axioms = ax;
            self.masks = saved;
        }
        (self.v_atom(c), self.v_atom(s))
    }
    /// (cos, sin) of n times the angle with (c, s)
    fn multi_angle(&mut self, c: u32, s: u32, n: i128) -> (u32, u32) {
        let (mut rc, mut rs) = (1u32, 0u32);
        for _ in 0..n.abs() {
            let (nc, ns) = self.cs_add(rc, rs, c, s);
            rc = nc;
            rs = ns;
        }
        if n < 0 {
            rs = self.v_neg(rs);
        }
        (rc, rs)
    }
    fn cs_add(&mut self, c1: u32, s1: u32, c2: u32, s2: u32) -> (u32, u32) {
        let a = self.v_mul(c1, c2);
        let b = self.v_mul(s1, s2);
        let c = self.v_sub(a, b);
        let d = self.v_mul(s1, c2);
        let e = self.v_mul(c1, s2);
        (c, self.v_add(d, e))
    }
    pub fn is_angle_atom(&self, a: u32) -> bool {
        matches!(
            self.atoms[a as usize].kind,
            Kind::Atan2(..) | Kind::Atan(..) | Kind::Acos(..) | Kind::Input(..) | Kind::Pi
        )
    }

    /// (cos, sin) of an angle value that is linear in angle atoms
    pub fn cos_sin(&mut self, v: u32) -> Result<(u32, u32), Stop> {
        let x = self.vals[v as usize].clone();
        let und = |s: &str| Err(Stop::Undecided(s.to_string()));
        if !x.den.is_empty() || x.num.degree() > 1 {
            return und("trigonometry of a nonlinear angle");
        }
        let (mut c, mut s) = (1u32, 0u32);
        for (m, k) in &x.num.0 {
            let (c2, s2) = if m.is_empty() {
                let kk = *k;
                let ca = self.kind_atom(&format!("cosk{}/{}", kk.n, kk.d), Kind::CosK(kk));
                let sa = self.kind_atom(&format!("sink{}/{}", kk.n, kk.d), Kind::SinK(kk));
                if self.atoms[ca as usize].axioms.is_empty() {
                    let saved = std::mem::take(&mut self.masks);
                    // rational enclosure
                    let mut ax = vec![];
                    for (a, v) in [(ca, kk.to_f64().cos()), (sa, kk.to_f64().sin())] {
                        let sc = 1e12;
                        let lo = Rat::new((v * sc).floor() as i128 - 1, sc as i128);
                        let hi = Rat::new((v * sc).ceil() as i128 + 1, sc as i128);
                        let p = Poly::atom(a);
                        ax.push(self.sgn_poly(&p.sub(&Poly::constant(lo)), POS));
                        ax.push(self.sgn_poly(&p.sub(&Poly::constant(hi)), NEG));
                    }
                    let circ = Poly::atom(ca).pow(2).add(&Poly::atom(sa).pow(2)).sub(&Poly::constant(Rat::ONE));
                    ax.push(self.sgn_poly(&circ, ZER));
                    self.atoms[ca as usize].axioms = ax.clone();
                    self.atoms[sa as usize].axioms = ax;
                    self.masks = saved;
                }
                (self.v_atom(ca), self.v_atom(sa))
            } else {
                let a = m[0].0;
                if a == self.pi {
                    // multiples of pi/4
                    let q = k.mul(Rat::int(4));
                    if q.d != 1 {
                        return und("trigonometry of an unsupported multiple of pi");
                    }
                    let n = q.n.rem_euclid(8);
                    let h = if n % 2 == 1 {
                        let half = self.v_const(Rat::new(1, 2));
                        match self.sqrt_raw(half) {
                            Ok(r) => r,
                            Err(_) => return und("sqrt(1/2)"),
                        }
                    } else {
                        1
                    };
                    let nh = self.v_neg(h);
                    match n {
                        0 => (1, 0),
                        1 => (h, h),
                        2 => (0, 1),
                        3 => (nh, h),
                        4 => (self.v_neg(1), 0),
                        5 => (nh, nh),
                        6 => (0, self.v_neg(1)),
                        _ => (h, nh),
                    }
                } else {
                    if !self.is_angle_atom(a) {
                        return und("trigonometry of a non-angle term");
                    }
                    if k.d != 1 && k.d != 2 && k.d != 4 {
                        return und("trigonometry of an unsupported fraction of an angle");
                    }
                    let (d, n) = if k.d == 1 { (1, k.n) } else { (4, k.n * (4 / k.d)) };
                    if n.abs() > 16 {
                        return und("trigonometry of a large multiple of an angle");
                    }
                    let (c1, s1) = self.cs_atom(a, d);
                    self.multi_angle(c1, s1, n)
                }
            };
            let (nc, ns) = self.cs_add(c, s, c2, s2);
            c = nc;
            s = ns;
        }
        Ok((c, s))
    }

    /// The angle part of v's numerator (constants removed), when v is linear in angle atoms with
    /// integer coefficients and its quadrant has not been decided on this path yet.
    pub fn angle_part(&self, v: u32) -> Option<(u32, i128)> {
        let x = &self.vals[v as usize];
        if x.num.degree() != 1 {
            return None;
        }
        if !x.den.iter().all(|(f, _)| self.polys[*f as usize].as_atom() == Some(self.pi)) {
            return None;
        }
        let mut ts = vec![];
        let mut bound = 0;
        let mut genuine = false;
        let (_, prim) = x.num.primitive();
        let _ = prim;
        for (m, k) in &x.num.0 {
            if m.is_empty() || m[0].0 == self.eps {
                continue;
            }
            let a = m[0].0;
            if a == self.pi {
                continue; // multiples of pi only shift the quadrant
            }
            match self.atoms[a as usize].kind {
                Kind::Atan2(..) | Kind::Atan(..) => {
                    genuine = true;
                }
                Kind::Input(..) if self.cs_used.contains(&a) => {
                    genuine = true;
                }
                _ => return None,
            }
            if k.d != 1 {
                return None;
            }
            bound += match self.atoms[a as usize].kind {
                Kind::Atan(..) => k.n.abs(),
                _ => 2 * k.n.abs(),
            };
            ts.push((m.clone(), *k));
        }
        if !genuine {
            return None;
        }
        let p = Poly::from_terms(ts);
        let (s, q) = p.primitive();
        let _ = s;
        // only whole multiples stay angles; use the primitive form (smallest angle)
        let n = p.0[0].1.n / q.0[0].1.n;
        let bound = (bound + n.abs() - 1) / n.abs().max(1);
        match self.poly_ix.get(&q) {
            Some(i) if self.located.contains(i) => None,
            Some(&i) => Some((i, bound)),
            None => Some((u32::MAX, bound)),
        }
    }

    /// Alternatives for the position of angle a (a value) among the multiples of pi/2.
    pub fn quadrant_alts(&mut self, v: u32, half_turns: i128) -> Result<Vec<F>, Stop> {
        let x = self.vals[v as usize].clone();
        let mut ts = vec![];
        for (m, k) in &x.num.0 {
            if m.is_empty() || m[0].0 == self.eps || m[0].0 == self.pi {
                continue;
            }
            ts.push((m.clone(), *k));
        }
        let (_, q) = Poly::from_terms(ts).primitive();
        let qi = self.intern(q.clone());
        self.located.insert(qi);
        let av = self.mk_val(Val { num: q.clone(), den: vec![] });
        let (c, s) = self.cos_sin(av)?;
        let pi = Poly::atom(self.pi);
        let mut alts = vec![];
        // bound is in units of pi/2
        for j in -half_turns..half_turns {
            // open quadrant (j, j+1) * pi/2
            let lo = q.sub(&pi.scale(Rat::new(j, 2)));
            let hi = q.sub(&pi.scale(Rat::new(j + 1, 2)));
            let (ss, cs) = match j.rem_euclid(4) {
                0 => (POS, POS),
                1 => (POS, NEG),
                2 => (NEG, NEG),
                _ => (NEG, POS),
            };
            let mut v = vec![
                self.sgn_poly(&lo, POS),
                self.sgn_poly(&hi, NEG),
                self.sgn_val(s, ss),
                self.sgn_val(c, cs),
            ];
            // |sin| against the distance d to the nearest multiple of pi, |cos| likewise
            let (dsin, dcos) = if j.rem_euclid(2) == 0 {
                (lo.clone(), hi.neg())
            } else {
                (hi.neg(), lo.clone())
            };
            for (d, f, sg) in [(dsin, s, ss), (dcos, c, cs)] {
                let fa = if sg == POS { f } else { self.v_neg(f) };
                let dv = self.mk_val(Val { num: d, den: vec![] });
                // f <= d
                let df = self.v_sub(fa, dv);
                v.push(self.sgn_val(df, NEG | ZER));
            }
            alts.push(F::and(v));
        }
        for j in -half_turns..=half_turns {
            let z = q.sub(&pi.scale(Rat::new(j, 2)));
            let (ss, cs) = match j.rem_euclid(4) {
                0 => (ZER, POS),
                1 => (POS, ZER),
                2 => (ZER, NEG),
                _ => (NEG, ZER),
            };
            let v = vec![self.sgn_poly(&z, ZER), self.sgn_val(s, ss), self.sgn_val(c, cs)];
            alts.push(F::and(v));
        }
        Ok(alts)
    }

    /// Branches over alternatives that cover everything; infeasible ones are pruned.
    pub fn decide_multi(&mut self, alts: Vec<F>) -> Result<usize, Stop> {
        self.check_deadline()?;
        self.shard_check()?;
        let tag = 77 + alts.len() as u32;
        let pos = self.log.len();
        if pos < self.prefix.len() {
            let d = self.prefix[pos];
            self.same(&d, tag)?;
            self.log.push(d);
            let g = self.simp(&alts[d.choice as usize]);
            self.push_pc(g, false);
            return Ok(d.choice as usize);
        }
        let ms = self.opts.feas_ms;
        let mut ok: Vec<(usize, bool)> = vec![];
        for (i, f) in alts.iter().enumerate() {
            let g = self.simp(f);
            if g == F::Fl {
                continue;
            }
            let mut hit = false;
            let live = self.live.clone();
            for mi in live {
                if self.eval_f(mi, &g) == Some(true) {
                    hit = true;
                    break;
                }
            }
            if hit {
                ok.push((i, true));
                continue;
            }
            match self.query(&g, ms) {
                Ans::Unsat => {}
                Ans::Unknown => ok.push((i, false)),
                Ans::Sat(v) => {
                    let mi = self.add_model(&v);
                    self.relive(mi);
                    ok.push((i, true));
                }
            }
        }
        if ok.is_empty() {
            return Err(Stop::Infeasible);
        }
        for &(i, c) in ok.iter().skip(1).rev() {
            let mut alt = self.log.clone();
            alt.push(Dec { choice: i as u16, implied: false, confirmed: c, tag });
            self.work.push(alt);
        }
        let (i, c) = ok[0];
        self.log.push(Dec { choice: i as u16, implied: false, confirmed: c, tag });
        let g = self.simp(&alts[i]);
        self.push_pc(g, false);
        Ok(i)
    }

    /// The path condition is known to be satisfiable.
    pub fn path_confirmed(&mut self) -> bool {
        if !self.live.is_empty() {
            return true;
        }
        if self.assumed_after_confirm {
            return false;
        }
        for d in self.log.iter().rev() {
            if d.implied {
                continue;
            }
            return d.confirmed;
        }
        false
    }
}

/// a digest of a decision (independent of how constants are written)
fn f_tag(f: &F) -> u32 {
    match f {
        F::T => 1,
        F::Fl => 2,
        F::S(p, m) => p.wrapping_mul(31).wrapping_add(*m as u32).wrapping_mul(7),
        F::And(v) => v.iter().fold(5, |a, x| a.wrapping_mul(1000003) ^ f_tag(x)),
        F::Or(v) => v.iter().fold(6, |a, x| a.wrapping_mul(1000003) ^ f_tag(x)),
    }
}

pub fn flip(m: u8) -> u8 {
    (m & ZER) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                let s = |m| match m {
                    NEG => -1,
                    ZER => 0,
                    _ => 1,
                };
                r |= match s(x) * s(y) {
                    -1 => NEG,
                    0 => ZER,
                    _ => POS,
                };
            }
        }
    }
    r
}
fn add_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= match (x, y) {
                    (ZER, y) => y,
                    (x, ZER) => x,
                    (x, y) if x == y => x,
                    _ => 7,
                };
            }
        }
    }
    r
}
fn add_den(d: &mut Vec<(u32, u32)>, f: u32, e: u32) {
    if e == 0 {
        return;
    }
    match d.iter_mut().find(|x| x.0 == f) {
        Some(x) => x.1 += e,
        None => d.push((f, e)),
    }
}
fn sub_den(d: &mut Vec<(u32, u32)>, f: u32, e: u32) {
    if let Some(i) = d.iter().position(|x| x.0 == f) {
        if d[i].1 <= e {
            d.remove(i);
        } else {
            d[i].1 -= e;
        }
    }
}
