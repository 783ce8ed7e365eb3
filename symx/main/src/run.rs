use crate::harness::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use symcore::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jnum(x: f64) -> String {
    if x.is_finite() {
        format!("{:?}", x)
    } else {
        js(&format!("{}", x))
    }
}
fn jmodel(m: &Model) -> String {
    let v: Vec<String> = m.iter().map(|(k, x)| format!("{}:{}", js(k), jnum(*x))).collect();
    format!("{{{}}}", v.join(","))
}
fn jlist(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|x| js(x)).collect();
    format!("[{}]", v.join(","))
}

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

thread_local! {
    /// The harness this thread is at.
    pub static CURRENT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn main(hs: Vec<H>, real: Vec<crate::prims::Row>) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYMX_PANIC").is_ok() {
            eprintln!("{}", i);
        }
        // a panic that cannot unwind ends the process: leave inputs that lead there
        if i.to_string().contains("unsafe precondition(s) violated") {
            for m in symcore::engine::crash_models() {
                eprintln!("SYMX-CRASH {}", jmodel(&m));
            }
        }
    }));
    // A dimension listed in both tiers runs in the quick one; anything else of one name is a mistake.
    let mut seen: BTreeMap<String, (Tier, &'static [&'static str])> = BTreeMap::new();
    let mut hs = hs;
    hs.sort_by_key(|h| h.tier == Tier::Thorough);
    hs.retain(|h| match seen.get(&h.name) {
        None => {
            seen.insert(h.name.clone(), (h.tier, h.props));
            true
        }
        Some((t, p)) => {
            if *t == h.tier || *p != h.props {
                eprintln!("duplicate harness {}", h.name);
                std::process::exit(2);
            }
            false
        }
    });
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in &hs {
                println!("{} {:?} {}", h.name, h.tier, h.props.join(","));
            }
        }
        Some("replay") => {
            // symx replay HARNESS name=value...
            let mut m = Model::new();
            for kv in &a[3..] {
                if let Some((k, v)) = kv.split_once('=') {
                    m.insert(k.to_string(), v.parse().expect("value"));
                }
            }
            let r = if let Some(h) = hs.iter().find(|h| Some(&h.name) == a.get(2)) {
                (h.nat)(&m)
            } else if let Some(r) = real.iter().find(|r| Some(r.0) == a.get(2).map(|s| s.as_str())) {
                symcore::scal::run_native(r.2, &m)
            } else {
                eprintln!("no such harness");
                std::process::exit(2)
            };
            println!("{:?}", r);
            std::process::exit(match r {
                Native::Fail { .. } | Native::Panic(_) => 1,
                Native::Pass(_) => 0,
                Native::AssumeFailed => 3,
                Native::Inconclusive(_) => 4,
            });
        }
        Some("run") => run(hs, &a),
        _ => {
            eprintln!("usage: symx list | run --prop C01 [--only name] --tier quick|thorough --out F | replay H k=v..");
            std::process::exit(2)
        }
    }
}

fn run(hs: Vec<H>, a: &[String]) {
    let prop = arg(a, "--prop").unwrap_or_default();
    let only = arg(a, "--only");
    let name = arg(a, "--name");
    let thorough = arg(a, "--tier").map_or(false, |t| t == "thorough");
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs: usize = arg(a, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit: u64 = arg(a, "--limit").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 400 });
    let goal_ms: u64 = arg(a, "--goal-ms").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 120_000 } else { 15_000 });
    let out = arg(a, "--out");
    let verbose = a.iter().any(|x| x == "-v");
    let sel: Vec<&H> = hs
        .iter()
        .filter(|h| prop.is_empty() || h.props.contains(&prop.as_str()))
        .filter(|h| thorough || h.tier == Tier::Quick)
        .filter(|h| only.as_ref().map_or(true, |o| h.name.contains(o.as_str())))
        .filter(|h| name.as_ref().map_or(true, |n| h.name == *n))
        .collect();
    let start = Instant::now();
    let deadline = start + Duration::from_secs(limit);
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, Outcome, f64)>> = Mutex::new(vec![]);
    let finish = |r: &mut Vec<(usize, Outcome, f64)>| {
        r.sort_by_key(|x| x.0);
        let (j, bad) = report(&sel, r, start.elapsed().as_secs_f64());
        match &out {
            Some(f) => std::fs::write(f, j).expect("write result"),
            None if !verbose => print!("{}", j),
            None => {}
        }
        eprintln!("{} harnesses, {} not clean, {:.1}s", sel.len(), bad, start.elapsed().as_secs_f64());
    };
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        // a harness that does not return must not take the others' results with it
        s.spawn(|| {
            while done.load(Ordering::SeqCst) < sel.len() {
                std::thread::sleep(Duration::from_millis(20));
                if Instant::now() > deadline + Duration::from_secs(45) {
                    finish(&mut results.lock().unwrap());
                    std::process::exit(0);
                }
            }
        });
        for _ in 0..jobs.min(sel.len()).max(1) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= sel.len() {
                        break;
                    }
                    let t = Instant::now();
                    let cfg = Config {
                        goal_ms,
                        branch_ms: if thorough { 10_000 } else { 4_000 },
                        max_paths: if thorough { 20_000 } else { 3_000 },
                        deadline,
                        cross_check: thorough,
                        seed,
                    };
                    CURRENT.with(|c| *c.borrow_mut() = sel[i].name.clone());
                    let o = explore(sel[i].sym, Some(sel[i].nat), cfg);
                    let dt = t.elapsed().as_secs_f64();
                    if verbose {
                        eprintln!(
                            "{:<40} {:6.2}s paths {} goals {}/{} queries {} witnesses {} {}{}",
                            sel[i].name,
                            dt,
                            o.stats.paths,
                            o.stats.discharged,
                            o.stats.goals,
                            o.stats.queries,
                            o.stats.witnesses,
                            o.violation.as_ref().map_or(String::new(), |v| format!("VIOLATION {} {} {:?}", v.label, v.detail, v.model)),
                            if o.errors.is_empty() { String::new() } else { format!(" ERRORS {:?}", o.errors) },
                        );
                        if !o.notes.is_empty() {
                            eprintln!("    notes {:?}", o.notes);
                        }
                    }
                    results.lock().unwrap().push((i, o, dt));
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    finish(&mut results.into_inner().unwrap());
}

/// The results as JSON, and how many of them are not clean.
fn report(sel: &[&H], r: &[(usize, Outcome, f64)], wall: f64) -> (String, usize) {
    let mut j = String::from("{\"harnesses\":[");
    let mut bad = 0;
    for (k, (i, o, dt)) in r.iter().enumerate() {
        if k > 0 {
            j.push_str(",\n");
        }
        let s = &o.stats;
        write!(
            j,
            "{{\"name\":{},\"wall_s\":{:.3},\"paths\":{},\"infeasible\":{},\"branches\":{},\"goals\":{},\"discharged\":{},\"queries\":{},\"solver_s\":{:.3},\"witnesses\":{},\"witness_mismatch\":{},\"cross\":{},\"terms\":{},\"labels\":{},\"errors\":{},\"notes\":{},\"sample\":{},\"violation\":{}}}",
            js(&sel[*i].name), dt, s.paths, s.infeasible, s.branches, s.goals, s.discharged, s.queries, s.solver_s,
            s.witnesses, s.witness_mismatch, s.cross, s.nodes,
            jlist(&o.labels.iter().take(60).cloned().collect::<Vec<_>>()), jlist(&o.errors), jlist(&o.notes),
            o.sample.as_ref().map_or("null".into(), jmodel),
            o.violation.as_ref().map_or("null".into(), |v| format!(
                "{{\"label\":{},\"detail\":{},\"model\":{}}}", js(&v.label), js(&v.detail), jmodel(&v.model)))
        )
        .unwrap();
        if o.violation.is_some() || !o.errors.is_empty() {
            bad += 1;
        }
    }
    let lost: Vec<String> =
        (0..sel.len()).filter(|k| r.iter().all(|x| x.0 != *k)).map(|k| sel[k].name.clone()).collect();
    write!(j, "],\"lost\":{},\"wall_s\":{:.3},\"selected\":{}}}\n", jlist(&lost), wall, sel.len()).unwrap();
    (j, bad + lost.len())
}
