//! SMT solver processes, driven over pipes with per-query time limits.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}

pub struct Solver {
    pub kind: Kind,
    child: Option<(Child, Sender<String>, Receiver<String>)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new(kind: Kind) -> Self {
        Solver { kind, child: None }
    }
    fn spawn(&mut self, ms: u64) {
        let mut cmd = match self.kind {
            Kind::Z3New => {
                let mut c = Command::new("z3-new");
                c.args(["-in", "-smt2"]);
                c
            }
            Kind::Z3Old => {
                let mut c = Command::new("z3");
                c.args(["-in", "-smt2"]);
                c
            }
            Kind::Cvc5 => {
                let mut c = Command::new("cvc5");
                c.args(["--lang=smt2", "--incremental", "--produce-models"]);
                c.arg(format!("--tlimit-per={}", ms));
                c
            }
        };
        let mut ch = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("symx-internal: cannot start solver {:?}: {}", self.kind, e));
        let mut stdin = ch.stdin.take().unwrap();
        let stdout = ch.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        // a solver that stops reading must not block us: a thread of its own does the writing
        let (wtx, wrx) = channel::<String>();
        std::thread::spawn(move || {
            for s in wrx {
                if stdin.write_all(s.as_bytes()).is_err() || stdin.flush().is_err() {
                    break;
                }
            }
        });
        self.child = Some((ch, wtx, rx));
    }
    pub fn kill(&mut self) {
        if let Some((mut ch, _, _)) = self.child.take() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    fn exchange(&mut self, text: &str, limit: Duration) -> Option<Vec<String>> {
        let (_, stdin, rx) = self.child.as_mut()?;
        let deadline = Instant::now() + limit;
        if stdin.send(format!("{}\n(echo \"symx-done\")\n", text)).is_err() {
            self.kill();
            return None;
        }
        let mut out = vec![];
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "symx-done" {
                        return Some(out);
                    }
                    out.push(l);
                }
                Err(_) => {
                    self.kill();
                    return None;
                }
            }
        }
    }
    /// `body`: declarations and assertions. Returns the verdict and, on sat, the values of
    /// `vals` as solver text. Any error line makes the verdict Unknown.
    pub fn check(&mut self, body: &str, ms: u64, tactic: Option<&str>, vals: &[String]) -> (Ans, Vec<String>) {
        if self.kind == Kind::Cvc5 {
            self.kill();
        }
        if self.child.is_none() {
            self.spawn(ms);
        }
        let mut t = String::new();
        if self.kind != Kind::Cvc5 {
            t.push_str("(reset)\n");
            t.push_str(&format!("(set-option :timeout {})\n", ms));
            t.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
        } else {
            t.push_str("(set-logic QF_NRA)\n");
        }
        t.push_str(body);
        match tactic {
            Some(x) if self.kind != Kind::Cvc5 => t.push_str(&format!("\n(check-sat-using {})", x)),
            _ => t.push_str("\n(check-sat)"),
        }
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::write(format!("{}/{:?}.smt2", d, std::thread::current().id()), &t);
        }
        let lines = match self.exchange(&t, Duration::from_millis(ms + 1500)) {
            Some(l) => l,
            None => return (Ans::Unknown, vec![]),
        };
        let mut a = Ans::Unknown;
        for l in &lines {
            if l.contains("(error") {
                if std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("solver error: {}", l);
                }
                return (Ans::Unknown, vec![]);
            }
            match l.trim() {
                "sat" => a = Ans::Sat,
                "unsat" => a = Ans::Unsat,
                _ => {}
            }
        }
        if a != Ans::Sat || vals.is_empty() {
            return (a, vec![]);
        }
        let q = format!("(get-value ({}))", vals.join(" "));
        match self.exchange(&q, Duration::from_secs(5)) {
            Some(l) => (a, parse_values(&l.join(" "), vals.len())),
            None => (a, vec![]),
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

/// Parses `((x 1.0) (y (- (/ 1.0 3.0))) ...)` into one string per pair.
fn parse_values(s: &str, n: usize) -> Vec<String> {
    let mut depth = 0;
    let mut cur = String::new();
    let mut out = vec![];
    for ch in s.chars() {
        match ch {
            '(' => {
                depth += 1;
                if depth >= 2 {
                    cur.push(ch)
                }
            }
            ')' => {
                if depth >= 2 {
                    cur.push(ch)
                }
                depth -= 1;
                if depth == 1 {
                    let inner = cur.trim();
                    let inner = &inner[1..inner.len() - 1];
                    let inner = inner.trim_start();
                    let v = if let Some(r) = inner.strip_prefix('|') {
                        r.splitn(2, '|').nth(1).unwrap_or("").to_string()
                    } else {
                        inner.splitn(2, char::is_whitespace).nth(1).unwrap_or("").to_string()
                    };
                    out.push(v.trim().to_string());
                    cur.clear();
                }
            }
            _ => {
                if depth >= 2 {
                    cur.push(ch)
                }
            }
        }
    }
    if out.len() != n {
        return vec![];
    }
    out
}

/// Numeric value of solver text such as `1.5`, `(- 2.0)`, `(/ 1.0 3.0)`, `1.4142?`.
pub fn value_to_f64(s: &str) -> Option<f64> {
    let t: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut pos = 0;
    let r = expr(&t, &mut pos);
    if pos == t.len() {
        r
    } else {
        None
    }
}
fn expr(t: &[String], pos: &mut usize) -> Option<f64> {
    let x = t.get(*pos)?;
    *pos += 1;
    if x == "(" {
        let op = t.get(*pos)?.clone();
        *pos += 1;
        let mut args = vec![];
        while t.get(*pos)? != ")" {
            args.push(expr(t, pos)?);
        }
        *pos += 1;
        match (op.as_str(), args.len()) {
            ("-", 1) => Some(-args[0]),
            ("-", 2) => Some(args[0] - args[1]),
            ("+", _) => Some(args.iter().sum()),
            ("*", _) => Some(args.iter().product()),
            ("/", 2) => Some(args[0] / args[1]),
            _ => None,
        }
    } else {
        x.trim_end_matches('?').parse().ok()
    }
}
