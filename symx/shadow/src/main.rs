//! The macro-generated impls of the primitive floats, executed on symbolic scalars.
#[path = "../../main/src/harness.rs"]
mod harness;
#[path = "../../main/src/prims.rs"]
#[macro_use]
mod prims;
#[path = "../../main/src/run.rs"]
mod run;

use harness::{Tier, H};
use prims::Row;
use symcore::{Model, Native};
prims!(p64, symcore::F64, "f64");
prims!(p32, symcore::F32, "f32");

/// The real crate's answer, from the main binary.
fn real(m: &Model) -> Native {
    let name = run::CURRENT.with(|c| c.borrow().clone());
    let exe = match std::env::var("SYMX_REAL") {
        Ok(e) => e,
        Err(_) => return Native::Inconclusive("SYMX_REAL is not set".into()),
    };
    let r = std::process::Command::new(exe)
        .arg("replay")
        .arg(name)
        .args(m.iter().map(|(k, v)| format!("{}={:?}", k, v)))
        .output();
    match r {
        Err(e) => Native::Inconclusive(e.to_string()),
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
            match o.status.code() {
                Some(0) => Native::Pass(1),
                Some(1) => Native::Fail { label: text.split('"').nth(1).unwrap_or("").to_string(), detail: text },
                Some(3) => Native::AssumeFailed,
                _ => Native::Inconclusive(text),
            }
        }
    }
}

fn main() {
    let rows: Vec<Row> = p64::table().into_iter().chain(p32::table()).collect();
    let hs = rows.iter().map(|r| H { name: r.0.to_string(), props: r.1, tier: Tier::Quick, sym: r.2, nat: real }).collect();
    run::main(hs, vec![]);
}
