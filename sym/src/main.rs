mod contracts;
mod engine;
mod poly;
mod rat;
mod run;
mod sc;
mod smt;
mod sym;
use run::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jnum(v: f64) -> String {
    if v.is_finite() {
        format!("{:?}", v)
    } else {
        jstr(&format!("{}", v))
    }
}
fn jin(v: &[(String, f64)]) -> String {
    format!("{{{}}}", v.iter().map(|(n, x)| format!("{}:{}", jstr(n), jnum(*x))).collect::<Vec<_>>().join(","))
}
fn jfail(v: &[(String, f64)]) -> String {
    format!(
        "[{}]",
        v.iter().map(|(n, x)| format!("{{\"post\":{},\"margin\":{}}}", jstr(n), jnum(*x))).collect::<Vec<_>>().join(",")
    )
}

fn prove_json(r: &ProveResult) -> String {
    use engine::Status::*;
    let mut labels: Vec<String> = vec![];
    for o in &r.obls {
        if !labels.contains(&o.label) {
            labels.push(o.label.clone());
        }
    }
    let mut items = vec![];
    for l in &labels {
        let os: Vec<_> = r.obls.iter().filter(|o| &o.label == l).collect();
        let d = os.iter().filter(|o| matches!(o.status, Discharged(_))).count();
        let refs: Vec<String> = os
            .iter()
            .filter_map(|o| match &o.status {
                Refuted(m) | Candidate(m) => Some(format!("{{\"path\":{},\"inputs\":{}}}", o.path, jin(m))),
                _ => None,
            })
            .take(12)
            .collect();
        let und = os.iter().filter(|o| matches!(o.status, Undecided(_) | Candidate(_))).count();
        let nref = os.iter().filter(|o| matches!(o.status, Refuted(_))).count();
        items.push(format!(
            "{{\"label\":{},\"total\":{},\"discharged\":{},\"undecided\":{},\"nrefuted\":{},\"covered\":{},\"refuted\":[{}]}}",
            jstr(l),
            os.len(),
            d,
            und,
            nref,
            r.covered.get(l).cloned().unwrap_or(0),
            refs.join(",")
        ));
    }
    let mut up: Vec<String> = r.undecided_paths.clone();
    up.sort();
    up.dedup();
    format!(
        "{{\"contract\":{},\"paths\":{},\"infeasible\":{},\"assumed_away\":{},\"complete\":{},\"undecided_paths\":{},\"undecided_why\":[{}],\"solver_ms\":{},\"wall_ms\":{},\"stats\":{{{}}},\"posts\":[{}]}}",
        jstr(&r.name),
        r.paths,
        r.infeasible,
        r.assumed_away,
        r.complete,
        r.undecided_paths.len(),
        up.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        r.solver_ms,
        r.wall_ms,
        r.stats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        items.join(",")
    )
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYM_PANICS").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let all = contracts::all();
    sc::DEEP.store(args.iter().any(|a| a == "--deep"), std::sync::atomic::Ordering::Relaxed);
    let opt = |k: &str, d: f64| -> f64 {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1))
            .map(|v| v.parse().unwrap())
            .unwrap_or(d)
    };
    let names: Vec<String> = args
        .iter()
        .skip(2)
        .take_while(|a| !a.starts_with("-"))
        .cloned()
        .collect();
    let sel: Vec<Contract> = all
        .iter()
        .filter(|c| names.is_empty() || names.iter().any(|n| c.name == n || (n.ends_with('*') && c.name.starts_with(&n[..n.len() - 1]))))
        .cloned()
        .collect();
    let seed = opt("--seed", 1.0) as u64;
    let jobs = opt("--jobs", 8.0) as usize;
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in all {
                println!(
                    "{{\"contract\":{},\"covers\":{},\"bound\":{},\"conc_only\":{}}}",
                    jstr(c.name),
                    jstr(c.covers),
                    jstr(c.bound),
                    c.conc_only
                );
            }
        }
        Some("prove") => {
            let budget = opt("--budget", 120.0);
            let feas = opt("--feas", 300.0) as u64;
            let obl = opt("--obl", 10000.0) as u64;
            let maxp = opt("--paths", 100000.0) as usize;
            let verbose = args.iter().any(|a| a == "-v");
            let mut work: Vec<(usize, (usize, usize))> = vec![];
            let mut left: Vec<usize> = vec![];
            for (i, c) in sel.iter().enumerate() {
                if !c.conc_only {
                    for k in 0..c.shards {
                        work.push((i, (k, c.shards)));
                    }
                }
                left.push(c.shards);
            }
            // long contracts first, a single queue
            work.sort_by_key(|w| std::cmp::Reverse(w.1 .1));
            let total = opt("--total", 1e9);
            let t0 = Instant::now();
            let q = Arc::new(Mutex::new(work));
            let acc: Arc<Mutex<HashMap<usize, ProveResult>>> = Arc::new(Mutex::new(HashMap::new()));
            let left = Arc::new(Mutex::new(left));
            let mut hs = vec![];
            for _ in 0..jobs {
                let (q, acc, left, sel) = (q.clone(), acc.clone(), left.clone(), sel.clone());
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn(move || loop {
                            let (i, shard) = {
                                let mut g = q.lock().unwrap();
                                if g.is_empty() {
                                    break;
                                }
                                g.remove(0)
                            };
                            let b = budget.min(total - t0.elapsed().as_secs_f64()).max(0.5);
                            let r = prove(
                                &sel[i],
                                &ProveOpts {
                                    budget: Duration::from_secs_f64(b),
                                    feas_ms: feas,
                                    obl_ms: obl,
                                    max_paths: maxp,
                                    seed,
                                    verbose,
                                    shard,
                                },
                            );
                            let mut a = acc.lock().unwrap();
                            match a.get_mut(&i) {
                                Some(x) => x.merge(r),
                                None => {
                                    a.insert(i, r);
                                }
                            }
                            let mut l = left.lock().unwrap();
                            l[i] -= 1;
                            if l[i] == 0 {
                                println!("{}", prove_json(&a[&i]));
                            }
                        })
                        .unwrap(),
                );
            }
            // a path that does not end (an endless loop in the code) must not hide the others
            let mut printed_late = false;
            while hs.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(50));
                if t0.elapsed().as_secs_f64() > total.min(budget) + 45.0 {
                    printed_late = true;
                    break;
                }
            }
            if printed_late {
                let (l, mut a) = (left.lock().unwrap(), acc.lock().unwrap());
                for (i, c) in sel.iter().enumerate() {
                    if l[i] > 0 && !c.conc_only {
                        let r = a.entry(i).or_insert_with(|| ProveResult::empty(c.name));
                        r.complete = false;
                        r.paths += 1;
                        r.undecided_paths.push("a path did not end within the time budget".into());
                        println!("{}", prove_json(r));
                    }
                }
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(0);
            }
            for h in hs {
                h.join().unwrap();
            }
        }
        Some("search") => {
            // concrete evaluation of the same contracts on the real code at f64
            let n = opt("--n", 20000.0) as u64;
            let budget = opt("--budget", 60.0);
            let keep = opt("--stop", 3.0) as usize;
            const CHUNKS: u64 = 32;
            let marks = run::Marks::start(jobs, 25.0);
            #[derive(Default)]
            struct Acc {
                tried: u64,
                held: u64,
                skipped: u64,
                nf: u64,
                ms: u128,
                fails: Vec<(u64, String, String)>,
                labels: HashMap<String, u64>,
                samples: Vec<(u64, String)>,
            }
            let mut work = vec![];
            for k in 0..CHUNKS {
                for i in 0..sel.len() {
                    work.push((i, k));
                }
            }
            let q = Arc::new(Mutex::new(work));
            let acc: Arc<Mutex<Vec<Acc>>> = Arc::new(Mutex::new(sel.iter().map(|_| Acc::default()).collect()));
            let mut hs = vec![];
            for job in 0..jobs {
                let marks = marks.clone();
                let (q, acc, sel) = (q.clone(), acc.clone(), sel.clone());
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || loop {
                            let (ci, k) = {
                                let mut g = q.lock().unwrap();
                                if g.is_empty() {
                                    break;
                                }
                                g.remove(0)
                            };
                            let c = sel[ci];
                            let t0 = Instant::now();
                            let mut a = Acc::default();
                            for i in (k * n / CHUNKS)..((k + 1) * n / CHUNKS) {
                                if t0.elapsed().as_secs_f64() > budget / CHUNKS as f64 * jobs as f64 {
                                    break;
                                }
                                a.tried += 1;
                                marks.set(job, c.name, seed.wrapping_mul(7919) ^ (i << 20) ^ i);
                                match run_conc(&c, seed.wrapping_mul(7919) ^ (i << 20) ^ i, HashMap::new()) {
                                    ConcOut::Skip => a.skipped += 1,
                                    ConcOut::Held(l) => {
                                        if a.samples.len() < 1 && k < 2 {
                                            a.samples.push((i, jin(&sc::last_used())));
                                        }
                                        a.held += 1;
                                        for x in l {
                                            *a.labels.entry(x).or_insert(0) += 1;
                                        }
                                    }
                                    ConcOut::Failed(f, u) => {
                                        a.nf += 1;
                                        let key = f.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("|");
                                        if a.fails.iter().filter(|x| x.1 == key).count() < keep {
                                            a.fails.push((i, key, format!("{{\"failed\":{},\"inputs\":{}}}", jfail(&f), jin(&u))));
                                        }
                                        if a.nf >= 200 {
                                            break;
                                        }
                                    }
                                }
                            }
                            marks.clear(job);
                            a.ms = t0.elapsed().as_millis();
                            let mut g = acc.lock().unwrap();
                            let x = &mut g[ci];
                            x.tried += a.tried;
                            x.held += a.held;
                            x.skipped += a.skipped;
                            x.nf += a.nf;
                            x.ms += a.ms;
                            x.fails.extend(a.fails);
                            x.samples.extend(a.samples);
                            for (k, v) in a.labels {
                                *x.labels.entry(k).or_insert(0) += v;
                            }
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                h.join().unwrap();
            }
            for (c, a) in sel.iter().zip(acc.lock().unwrap().iter_mut()) {
                let mut ls: Vec<_> = a.labels.iter().collect();
                ls.sort();
                a.fails.sort();
                a.samples.sort();
                println!(
                    "{{\"contract\":{},\"tried\":{},\"held\":{},\"skipped\":{},\"failed\":{},\"cpu_ms\":{},\"labels\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}",
                    jstr(c.name),
                    a.tried,
                    a.held,
                    a.skipped,
                    a.nf,
                    a.ms,
                    ls.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
                    a.samples.iter().take(2).map(|x| x.1.clone()).collect::<Vec<_>>().join(","),
                    a.fails.iter().take(40).map(|x| x.2.clone()).collect::<Vec<_>>().join(",")
                );
            }
        }
        Some("replay") => {
            // replay <contract> --in name=value ...
            let mut given = HashMap::new();
            for a in args.iter().skip(3) {
                if let Some((k, v)) = a.split_once('=') {
                    if let Ok(x) = v.parse() {
                        given.insert(k.to_string(), x);
                    }
                }
            }
            let c = sel.first().cloned().or_else(|| all.iter().find(|c| Some(c.name) == args.get(2).map(|s| s.as_str())).cloned());
            let c = match c {
                Some(c) => c,
                None => std::process::exit(2),
            };
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match run_conc(&c, seed, given) {
                ConcOut::Skip => println!("{{\"result\":\"skip\"}}"),
                ConcOut::Held(_) => println!("{{\"result\":\"held\"}}"),
                ConcOut::Failed(f, u) => {
                    println!("{{\"result\":\"failed\",\"failed\":{},\"inputs\":{}}}", jfail(&f), jin(&u));
                }
            });
            h.unwrap().join().unwrap();
        }
        _ => {
            eprintln!("usage: cavc-sym list | prove [names] | search [names] | replay name k=v ...");
            std::process::exit(2);
        }
    }
}
