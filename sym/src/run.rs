//! Drivers: prove a contract (all paths, all obligations), search / replay it concretely.
use crate::engine::*;
use crate::sc::{Conc, CONC};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Contract {
    pub name: &'static str,
    /// functions of the real code the contract covers
    pub covers: &'static str,
    /// bound, empty when the contract has none (a proof for all inputs)
    pub bound: &'static str,
    pub shards: usize,
    /// evaluated on concrete inputs only (a bounded stand-in)
    pub conc_only: bool,
    pub sym: fn(),
    pub conc: fn(),
}

pub struct ProveOpts {
    pub budget: Duration,
    pub feas_ms: u64,
    pub obl_ms: u64,
    pub max_paths: usize,
    pub seed: u64,
    pub verbose: bool,
    pub shard: (usize, usize),
}

pub struct ProveResult {
    pub name: String,
    pub paths: usize,
    pub infeasible: usize,
    pub assumed_away: usize,
    pub obls: Vec<Obl>,
    pub stats: BTreeMap<String, u64>,
    pub undecided_paths: Vec<String>,
    pub covered: BTreeMap<String, u64>,
    pub complete: bool,
    pub solver_ms: u128,
    pub wall_ms: u128,
}

fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

impl ProveResult {
    pub fn empty(n: &str) -> ProveResult {
        ProveResult {
            name: n.into(),
            paths: 0,
            infeasible: 0,
            assumed_away: 0,
            obls: vec![],
            stats: BTreeMap::new(),
            undecided_paths: vec![],
            covered: BTreeMap::new(),
            complete: false,
            solver_ms: 0,
            wall_ms: 0,
        }
    }
    pub fn merge(&mut self, o: ProveResult) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.assumed_away += o.assumed_away;
        self.obls.extend(o.obls);
        for (k, v) in o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.covered {
            *self.covered.entry(k).or_insert(0) += v;
        }
        self.undecided_paths.extend(o.undecided_paths);
        self.complete &= o.complete;
        self.solver_ms += o.solver_ms;
        self.wall_ms = self.wall_ms.max(o.wall_ms);
    }
}

pub fn prove(c: &Contract, o: &ProveOpts) -> ProveResult {
    let t0 = Instant::now();
    let e = Engine::new(Opts {
        feas_ms: o.feas_ms,
        obl_ms: o.obl_ms,
        max_paths: o.max_paths,
        deadline: t0 + o.budget,
        seed: o.seed,
        pool: 400,
        verbose: o.verbose,
        shard: o.shard,
    });
    ENG.with(|x| *x.borrow_mut() = Some(e));
    let mut infeasible = 0;
    let mut assumed = 0;
    let mut undecided: Vec<String> = vec![];
    let mut complete = true;
    eng(|e| e.work.push(vec![]));
    let mut paths = 0;
    loop {
        let next = eng(|e| e.work.pop());
        let prefix = match next {
            Some(p) => p,
            None => break,
        };
        if paths >= o.max_paths || t0.elapsed() > o.budget {
            complete = false;
            break;
        }
        paths += 1;
        eng(|e| e.new_path(prefix, paths));
        let nobl = eng(|e| e.obls.len());
        let r0 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            (c.sym)();
            if let Err(s) = eng(|e| e.shard_check()) {
                stop(s)
            }
        }));
        if std::env::var("SYM_PC").is_ok() {
            eng(|e| {
                eprintln!("--- path {} {}ms, {} facts, log {}, live {}", paths, r0.elapsed().as_millis(), e.pc.len(), e.log.len(), e.live.len());
                for (f, i) in e.pc.clone() {
                    eprintln!("   {} {}", if i { "implied" } else { "branch" }, e.f_str(&f));
                }
            });
        }
        match r {
            Ok(()) => {
                // reachability (vacuity guard)
                let ok = eng(|e| {
                    let labels: Vec<String> = e.obls[nobl..].iter().map(|o| o.label.clone()).collect();
                    let live = e.path_confirmed();
                    if live {
                        for l in labels {
                            *e.covered.entry(l).or_insert(0) += 1;
                        }
                    }
                    live
                });
                let _ = ok;
            }
            Err(p) => match p.downcast::<Stop>() {
                Ok(s) => match *s {
                    Stop::OtherShard => paths -= 1,
                    Stop::Infeasible => infeasible += 1,
                    Stop::AssumeFalse | Stop::Skip => assumed += 1,
                    Stop::Undef(m) => {
                        eng(|e| {
                            if !e.allow_undef {
                                e.obligation(&format!("defined: no {}", m), F::Fl);
                            }
                        });
                    }
                    Stop::Undecided(m) => {
                        if o.verbose {
                            eprintln!("  path {} undecided: {}", paths, m);
                        }
                        // an infeasible path is no gap
                        let inf = m != "time budget" && eng(|e| e.query(&F::T, 2000)) == crate::smt::Ans::Unsat;
                        if inf {
                            infeasible += 1;
                        } else {
                            undecided.push(m);
                        }
                    }
                },
                Err(p) => {
                    let m = payload_msg(&*p);
                    eng(|e| e.obligation(&format!("no panic ({})", m), F::Fl));
                }
            },
        }
    }
    let e = ENG.with(|x| x.borrow_mut().take()).unwrap();
    ProveResult {
        name: c.name.into(),
        paths,
        infeasible,
        assumed_away: assumed,
        obls: e.obls.clone(),
        stats: e.stats.clone(),
        undecided_paths: undecided,
        covered: e.covered.clone(),
        complete,
        solver_ms: e.solver_ms,
        wall_ms: t0.elapsed().as_millis(),
    }
}

pub enum ConcOut {
    Skip,
    Held(Vec<String>),
    Failed(Vec<(String, f64)>, Vec<(String, f64)>),
}

pub fn run_conc(c: &Contract, seed: u64, given: HashMap<String, f64>) -> ConcOut {
    CONC.with(|x| *x.borrow_mut() = Conc { seed, given, ..Default::default() });
    let r = catch_unwind(AssertUnwindSafe(|| (c.conc)()));
    let cc = CONC.with(|x| std::mem::take(&mut *x.borrow_mut()));
    crate::sc::LAST.with(|x| x.borrow_mut().clone_from(&cc.used));
    match r {
        Ok(()) => {
            if cc.failed.is_empty() {
                ConcOut::Held(cc.ensured)
            } else {
                ConcOut::Failed(cc.failed, cc.used)
            }
        }
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Skip | Stop::AssumeFalse | Stop::Infeasible | Stop::OtherShard => {
                    if cc.failed.is_empty() {
                        ConcOut::Skip
                    } else {
                        ConcOut::Failed(cc.failed, cc.used)
                    }
                }
                Stop::Undef(m) | Stop::Undecided(m) => {
                    let _ = m;
                    ConcOut::Skip
                }
            },
            Err(p) => {
                let m = payload_msg(&*p);
                ConcOut::Failed(vec![(format!("no panic ({})", m), f64::NEG_INFINITY)], cc.used)
            }
        },
    }
}

/// What every thread evaluates now, so that an input on which the code does not return (an endless
/// loop, an abort, memory exhausted) can be named: kept in the file named by MARK.
#[derive(Clone)]
pub struct Marks {
    file: Option<std::sync::Arc<std::fs::File>>,
    start: std::sync::Arc<Vec<std::sync::atomic::AtomicU64>>,
    t0: Instant,
}
impl Marks {
    pub fn start(jobs: usize, limit: f64) -> Marks {
        use std::sync::atomic::{AtomicU64, Ordering};
        let m = Marks {
            file: std::env::var("MARK").ok().map(|f| std::sync::Arc::new(std::fs::File::create(f).unwrap())),
            start: std::sync::Arc::new((0..jobs).map(|_| AtomicU64::new(u64::MAX)).collect()),
            t0: Instant::now(),
        };
        let k = m.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = k.t0.elapsed().as_millis() as u64;
            for s in k.start.iter() {
                let v = s.load(Ordering::Relaxed);
                if v != u64::MAX && now > v + (limit * 1000.0) as u64 {
                    std::process::exit(99);
                }
            }
        });
        m
    }
    pub fn set(&self, job: usize, name: &str, seed: u64) {
        self.start[job].store(self.t0.elapsed().as_millis() as u64, std::sync::atomic::Ordering::Relaxed);
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:<63}\n", format!("{} {}", name, seed)).as_bytes(), job as u64 * 64);
        }
    }
    pub fn clear(&self, job: usize) {
        self.start[job].store(u64::MAX, std::sync::atomic::Ordering::Relaxed);
    }
}
