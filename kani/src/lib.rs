//! Kani harnesses for the integer, pointer and ownership level (C01, C04, the integer and NaN
//! parts of C05, C07, C09, and the primitive normal distribution of C29).  Each harness is a function over a source of arbitrary values: under
//! Kani the values are symbolic, in the replay binary they are the solver's assignment.
#[macro_use]
mod base;
pub use base::*;
mod access;
mod float;
mod int;
mod own;
mod random;

pub fn all() -> Vec<(&'static str, fn(&mut Native))> {
    let mut v = vec![];
    own::list(&mut v);
    access::list(&mut v);
    int::list(&mut v);
    float::list(&mut v);
    random::list(&mut v);
    v
}
