//! Solver-based checks of vecmat: every harness below runs the crate's own code on symbolic
//! scalars; obligations go to SMT solvers, counterexamples are replayed on f64.
mod harness;
mod run;
#[macro_use]
mod util;
mod h;
mod tok;
#[macro_use]
mod prims;
/// Replays only: the symbolic side is in symx/shadow.
mod real_prims {
    use crate::prims::Row;
    prims!(p64, f64, "f64");
    prims!(p32, f32, "f32");
    pub fn rows() -> Vec<Row> {
        p64::table().into_iter().chain(p32::table()).collect()
    }
}

fn main() {
    run::main(h::all(), real_prims::rows());
}
