//! Symbolic real scalars for executing generic numeric code symbolically, with SMT solvers
//! deciding branches and proof obligations.
pub mod arena;
pub mod engine;
pub mod rat;
pub mod scal;
pub mod smt;
pub mod sym;

pub use arena::Op;
pub use engine::{explore, Config, Model, Native, Outcome, Stats, Violation};
pub use scal::{Rep, Scal};
pub use sym::{F32, F64, Sym};
