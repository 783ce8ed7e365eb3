//! Complex elementary functions and the polar form (C19).
use crate::util::*;
use num_complex::Complex as NC;

fn nceq<S: Sc>(l: &str, a: Complex<S>, b: NC<S>) {
    S::prove_eq(&format!("{} re", l), a.re(), b.re);
    S::prove_eq(&format!("{} im", l), a.im(), b.im);
}
macro_rules! unary {
    ($($f:ident)*) => { $(
        fn $f<S: Sc>() {
            let z = comp::<S>("z");
            nceq(stringify!($f), z.$f(), NC::new(z.re(), z.im()).$f());
        }
    )* };
}
unary!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv);
macro_rules! with_scalar {
    ($($f:ident)*) => { $(
        fn $f<S: Sc>() {
            let (z, s) = (comp::<S>("z"), S::var("s"));
            nceq(stringify!($f), z.$f(s), NC::new(z.re(), z.im()).$f(s));
        }
    )* };
}
with_scalar!(powf log expf);
macro_rules! with_complex {
    ($($f:ident)*) => { $(
        fn $f<S: Sc>() {
            let (z, w) = (comp::<S>("z"), comp::<S>("w"));
            nceq(stringify!($f), z.$f(w), NC::new(z.re(), z.im()).$f(NC::new(w.re(), w.im())));
        }
    )* };
}
with_complex!(powc fdiv);
fn remainder<S: Sc>() {
    let (z, w) = (comp::<S>("z"), comp::<S>("w"));
    S::assume(ne(w.norm_sqr(), S::zero()));
    nceq("rem", z % w, NC::new(z.re(), z.im()) % NC::new(w.re(), w.im()));
}
fn powers<S: Sc, const N: usize>() {
    let z = comp::<S>("z");
    let mut p = Complex::one();
    for k in 0..=N {
        ceq(&format!("powu {}", k), z.powu(k as u32), p);
        ceq(&format!("powi {}", k), z.powi(k as i32), p);
        p = p * z;
    }
    S::assume(ne(z.norm_sqr(), S::zero()));
    let mut p = Complex::one();
    for k in 0..=N.min(3) {
        ceq(&format!("powi -{}", k), z.powi(-(k as i32)) * p, Complex::one());
        p = p * z;
    }
}
/// Larger exponents, against the other implementation.
fn some_powers<S: Sc>() {
    let z = comp::<S>("z");
    let n = NC::new(z.re(), z.im());
    let k = [6, 7, 8, 9, 10, 11, 12][choose::<S>("exponent", 7)];
    nceq(&format!("powu {}", k), z.powu(k as u32), n.powu(k as u32));
    nceq(&format!("powi {}", k), z.powi(k), n.powi(k));
}
/// The same term for every z; where the computation goes another way, the same value at some points.
fn high_powers<S: Sc>() {
    const E: [i32; 28] = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 255, 256, 1000, 32768, 65535, 65537, i32::MAX];
    let k = E[choose::<S>("exponent", E.len())];
    let which = choose::<S>("which", 3);
    let crate_power = |z: Complex<S>| match which {
        0 => z.powu(k as u32),
        1 => z.powi(k),
        _ => z.powi(-k),
    };
    let num_power = |z: NC<S>| match which {
        0 => z.powu(k as u32),
        1 => z.powi(k),
        _ => z.powi(-k),
    };
    let l = format!("{} {}", ["powu", "powi", "powi -"][which], k);
    let z = comp::<S>("z");
    let (a, b) = (crate_power(z), num_power(z.into_num()));
    if S::same(a.re(), b.re) && S::same(a.im(), b.im) {
        return nceq(&l, a, b);
    }
    let f = |a: i64, b: i64| S::k(a) / S::k(b);
    let mut points = vec![(f(0, 1), f(1, 1)), (f(0, 1), f(-1, 1)), (f(-1, 1), f(0, 1))];
    if k < i32::MAX {
        points.push((f(3, 5), f(4, 5)));
    }
    for (re, im) in points {
        nceq(&l, crate_power(Complex::new(re, im)), num_power(NC::new(re, im)));
    }
}
fn polar<S: Sc>() {
    let (r, t) = (S::var("r"), S::var("t"));
    ceq("from_polar", Complex::from_polar(r, t), Complex::new(r * t.cos(), r * t.sin()));
    let z = comp::<S>("z");
    S::prove_eq("arg", z.arg(), z.im().atan2(z.re()));
    let (n, a) = z.to_polar();
    S::prove_eq("to_polar modulus", n, (z.re() * z.re() + z.im() * z.im()).sqrt());
    S::prove_eq("norm", z.norm(), n);
    S::prove_eq("to_polar angle", a, z.im().atan2(z.re()));
}
fn polar_round_trip<S: Sc>() {
    let z = comp::<S>("z");
    let (r, t) = z.to_polar();
    S::prove("modulus", le(S::zero(), r));
    ceq("from_polar(to_polar)", Complex::from_polar(r, t), z);
}

pub fn reg(v: &mut Vec<H>) {
    macro_rules! all { ($($f:ident)*) => { $( reg!(v, Quick, ["C19"], $f); )* } }
    all!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv powf log expf powc fdiv);
    macro_rules! exact { ($($f:ident)*) => { $( regx!(v, Quick, ["C19"], $f); )* } }
    exact!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv powf log expf powc fdiv);
    all!(remainder polar polar_round_trip);
    reg!(v, Quick, ["C19"], some_powers);
    reg!(v, Quick, ["C19"], high_powers);
    reg!(v, Quick, ["C19"], powers, 5);
    reg!(v, Thorough, ["C19"], powers, 9);
}
