//! SMT-LIB back ends: one incremental process for path feasibility, fresh processes for obligations.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Sat(Vec<(String, f64)>),
    Unsat,
    Unknown,
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    pub dead: bool,
}

impl Proc {
    pub fn spawn(cmd: &[&str]) -> Proc {
        let mut child = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("cannot start solver {:?}: {}", cmd, e);
                std::process::exit(3)
            });
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Proc { child, stdin, rx, dead: false }
    }
    pub fn send(&mut self, s: &str) {
        if self.stdin.write_all(s.as_bytes()).is_err() || self.stdin.write_all(b"\n").is_err() {
            self.dead = true;
        }
    }
    pub fn flush(&mut self) {
        if self.stdin.flush().is_err() {
            self.dead = true;
        }
    }
    /// next non-error line
    pub fn line(&mut self, t: Duration) -> Option<String> {
        match self.rx.recv_timeout(t) {
            Ok(l) => Some(l),
            Err(_) => {
                self.dead = true;
                None
            }
        }
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.dead = true;
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}

/// Parses the `((name value) ...)` answer of get-value.
pub fn parse_values(s: &str) -> Vec<(String, f64)> {
    // tokenise
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    let mut in_bar = false;
    for ch in s.chars() {
        if in_bar {
            cur.push(ch);
            if ch == '|' {
                in_bar = false;
            }
            continue;
        }
        match ch {
            '|' => {
                in_bar = true;
                cur.push(ch);
            }
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    fn expr(t: &[String], i: &mut usize) -> Option<f64> {
        if *i >= t.len() {
            return None;
        }
        if t[*i] == "(" {
            *i += 1;
            let op = t.get(*i)?.clone();
            *i += 1;
            let mut args = vec![];
            while *i < t.len() && t[*i] != ")" {
                args.push(expr(t, i)?);
            }
            *i += 1;
            match op.as_str() {
                "-" => {
                    if args.len() == 1 {
                        Some(-args[0])
                    } else {
                        Some(args[0] - args[1])
                    }
                }
                "/" => Some(args[0] / args[1]),
                "+" => Some(args.iter().sum()),
                "*" => Some(args.iter().product()),
                _ => None,
            }
        } else {
            let s = t[*i].trim_end_matches('?').to_string();
            *i += 1;
            s.parse::<f64>().ok()
        }
    }
    let mut res = vec![];
    let mut i = 0;
    if toks.first().map(|x| x.as_str()) != Some("(") {
        return res;
    }
    i += 1;
    while i < toks.len() && toks[i] == "(" {
        i += 1;
        let name = toks[i].clone();
        i += 1;
        let start = i;
        match expr(&toks, &mut i) {
            Some(v) => res.push((name, v)),
            None => {
                // skip balanced
                i = start;
                let mut d = 0;
                loop {
                    if i >= toks.len() {
                        return res;
                    }
                    if toks[i] == "(" {
                        d += 1
                    } else if toks[i] == ")" {
                        if d == 0 {
                            break;
                        }
                        d -= 1;
                    }
                    i += 1;
                }
            }
        }
        if i < toks.len() && toks[i] == ")" {
            i += 1;
        }
    }
    res
}

/// Runs one fresh solver on a complete script that ends with (check-sat) and, when `vals` is non
/// empty, asks for those values.
pub fn run_fresh(cmd: &[&str], script: &str, vals: &[String], timeout: Duration) -> Ans {
    let mut p = Proc::spawn(cmd);
    p.send(script);
    p.send("(check-sat)");
    p.flush();
    let r = loop {
        match p.line(timeout) {
            None => break Ans::Unknown,
            Some(l) => {
                let l = l.trim();
                if l == "unsat" {
                    break Ans::Unsat;
                }
                if l == "unknown" || l == "timeout" {
                    break Ans::Unknown;
                }
                if l == "sat" {
                    if vals.is_empty() {
                        break Ans::Sat(vec![]);
                    }
                    p.send(&format!("(get-value ({}))", vals.join(" ")));
                    p.send("(echo \"@@\")");
                    p.flush();
                    let mut s = String::new();
                    loop {
                        match p.line(Duration::from_secs(5)) {
                            None => break,
                            Some(l) => {
                                if l.trim().trim_matches('"') == "@@" {
                                    break;
                                }
                                s.push_str(&l);
                                s.push(' ');
                            }
                        }
                    }
                    break Ans::Sat(parse_values(&s));
                }
                if l.starts_with("(error") {
                    if std::env::var("SYM_DEBUG").is_ok() {
                        eprintln!("solver {:?}: {}", cmd, l);
                    }
                    break Ans::Unknown;
                }
            }
        }
    };
    p.kill();
    r
}
