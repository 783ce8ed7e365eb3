//! The normal distribution of the primitive floats, for every sequence of random words (C29).
//! Logarithm, square root and cosine are replaced by any values with the facts below.
use crate::*;
use rand::distributions::Distribution;
use rand::{Error, RngCore};
use vecmat::distr::Normal;

struct Words<'a, S>(&'a mut S);
impl<S: Src> RngCore for Words<'_, S> {
    fn next_u32(&mut self) -> u32 {
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0.u8()
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
macro_rules! normal {
    ($m:ident, $T:ident) => {
        #[cfg(kani)]
        mod $m {
            /// ln 0 = -inf; finite, and of the sign of x - 1, for other x >= 0.
            pub fn ln(x: $T) -> $T {
                if !(x >= 0.0) {
                    return $T::NAN;
                }
                if x == 0.0 {
                    return $T::NEG_INFINITY;
                }
                if x == $T::INFINITY || x == 1.0 {
                    return x - 1.0;
                }
                let y: $T = kani::any();
                kani::assume(-750.0 <= y && y <= 750.0 && (y < 0.0) == (x < 1.0) && y != 0.0);
                y
            }
            /// Between 0 and max(1, x).
            pub fn sqrt(x: $T) -> $T {
                if !(x > 0.0) {
                    return if x == 0.0 { x } else { $T::NAN };
                }
                if x == $T::INFINITY {
                    return x;
                }
                let y: $T = kani::any();
                kani::assume(0.0 < y && (y <= x || y <= 1.0));
                y
            }
            pub fn cos(x: $T) -> $T {
                if !(x > $T::NEG_INFINITY && x < $T::INFINITY) {
                    return $T::NAN;
                }
                let y: $T = kani::any();
                kani::assume(-1.0 <= y && y <= 1.0);
                y
            }
        }
    };
}
normal!(m32, f32);
normal!(m64, f64);

fn normal32(s: &mut impl Src) {
    let x: f32 = Normal.sample(&mut Words(s));
    ck!(x.is_finite(), "a normal sample is a finite number");
}
fn normal64(s: &mut impl Src) {
    let x: f64 = Normal.sample(&mut Words(s));
    ck!(x.is_finite(), "a normal sample is a finite number");
}

#[cfg(kani)]
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(<f32 as num_traits::Float>::ln, m32::ln)]
#[kani::stub(<f32 as num_traits::Float>::sqrt, m32::sqrt)]
#[kani::stub(<f32 as num_traits::Float>::cos, m32::cos)]
#[kani::stub(<f32 as num_traits::Float>::sin, m32::cos)]
fn c29q_normal_f32() {
    normal32(&mut Sym)
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(<f64 as num_traits::Float>::ln, m64::ln)]
#[kani::stub(<f64 as num_traits::Float>::sqrt, m64::sqrt)]
#[kani::stub(<f64 as num_traits::Float>::cos, m64::cos)]
#[kani::stub(<f64 as num_traits::Float>::sin, m64::cos)]
fn c29q_normal_f64() {
    normal64(&mut Sym)
}
pub fn list(v: &mut Vec<(&'static str, fn(&mut Native))>) {
    v.push(("c29q_normal_f32", |s| normal32(s)));
    v.push(("c29q_normal_f64", |s| normal64(s)));
}
