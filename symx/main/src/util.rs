pub use crate::harness::{Tier::*, H};
pub use num_traits::{Float, FloatConst, Inv, Num, NumCast, One, Zero};
pub use symcore::scal::{all, any, eq, le, lt, ne, not, run_exact, run_native, Cond};
pub use symcore::{Rep, Scal, F64};
pub use vecmat::traits::*;
pub use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

pub trait Sc:
    Scal
    + Dot<Output = Self>
    + NormL1<Output = Self>
    + NormL2<Output = Self>
    + NormLInf<Output = Self>
    + Conj
    + Epsilon
    + approx::AbsDiffEq<Epsilon = Self>
{
}
impl<T> Sc for T where
    T: Scal
        + Dot<Output = Self>
        + NormL1<Output = Self>
        + NormL2<Output = Self>
        + NormLInf<Output = Self>
        + Conj
        + Epsilon
        + approx::AbsDiffEq<Epsilon = Self>
{
}

macro_rules! reg {
    ($v:expr, $tier:expr, [$($p:literal),*], $f:ident $(, $g:tt)*) => {
        $v.push(H {
            name: concat!(stringify!($f) $(, "_", stringify!($g))*).to_string(),
            props: &[$($p),*],
            tier: $tier,
            sym: || $f::<F64 $(, $g)*>(),
            nat: |m| run_native(|| $f::<Rep $(, $g)*>(), m),
        })
    };
}
/// As `reg!`, with uninterpreted arithmetic: bit for bit on floats, exact on integers.
macro_rules! regx {
    ($v:expr, $tier:expr, [$($p:literal),*], $f:ident $(, $g:tt)*) => {
        $v.push(H {
            name: concat!("exact_", stringify!($f) $(, "_", stringify!($g))*).to_string(),
            props: &[$($p),*],
            tier: $tier,
            sym: || {
                F64::go_opaque();
                $f::<F64 $(, $g)*>()
            },
            nat: |m| run_exact(|| $f::<f64 $(, $g)*>(), m),
        })
    };
}
macro_rules! regx1 {
    ($v:expr, $tier:expr, $ps:tt, $f:ident, [$($n:tt)*]) => { $( regx!($v, $tier, $ps, $f, $n); )* };
}
macro_rules! regx2 {
    ($v:expr, $tier:expr, $ps:tt, $f:ident, [$(($m:tt $n:tt))*]) => { $( regx!($v, $tier, $ps, $f, $m, $n); )* };
}
/// One registration per dimension.
macro_rules! reg1 {
    ($v:expr, $tier:expr, $ps:tt, $f:ident, [$($n:tt)*]) => { $( reg!($v, $tier, $ps, $f, $n); )* };
}
/// One registration per shape.
macro_rules! reg2 {
    ($v:expr, $tier:expr, $ps:tt, $f:ident, [$(($m:tt $n:tt))*]) => { $( reg!($v, $tier, $ps, $f, $m, $n); )* };
}
macro_rules! reg3 {
    ($v:expr, $tier:expr, $ps:tt, $f:ident, [$(($l:tt $m:tt $n:tt))*]) => { $( reg!($v, $tier, $ps, $f, $l, $m, $n); )* };
}

pub fn arr<S: Scal, const N: usize>(n: &str) -> [S; N] {
    core::array::from_fn(|i| S::var(&format!("{}{}", n, i)))
}
pub fn arr2<S: Scal, const M: usize, const N: usize>(n: &str) -> [[S; N]; M] {
    core::array::from_fn(|i| core::array::from_fn(|j| S::var(&format!("{}{}_{}", n, i, j))))
}
pub fn vec<S: Scal, const N: usize>(n: &str) -> Vector<S, N> {
    Vector::from_array(arr(n))
}
pub fn mat<S: Scal, const M: usize, const N: usize>(n: &str) -> Matrix<S, M, N> {
    Matrix::from_array_of_arrays(arr2(n))
}
pub fn comp<S: Scal>(n: &str) -> Complex<S> {
    Complex::from_array(arr(n))
}
pub fn quat<S: Scal>(n: &str) -> Quaternion<S> {
    Quaternion::from_array(arr(n))
}
/// A symbolic choice among `k` alternatives.
pub fn choose<S: Scal>(name: &str, k: usize) -> usize {
    let v = S::var(name);
    S::assume(le(S::zero(), v));
    S::assume(lt(v, S::k(k as i64)));
    for i in 0..k - 1 {
        if v < S::k(i as i64 + 1) {
            return i;
        }
    }
    k - 1
}

pub fn veq<S: Scal, const N: usize>(l: &str, a: Vector<S, N>, b: [S; N]) {
    let a = a.into_array();
    for i in 0..N {
        S::prove_eq(&format!("{} [{}]", l, i), a[i], b[i]);
    }
}
pub fn vveq<S: Scal, const N: usize>(l: &str, a: Vector<S, N>, b: Vector<S, N>) {
    veq(l, a, b.into_array())
}
pub fn meq<S: Scal, const M: usize, const N: usize>(l: &str, a: Matrix<S, M, N>, b: [[S; N]; M]) {
    let a = a.into_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            S::prove_eq(&format!("{} [{},{}]", l, i, j), a[i][j], b[i][j]);
        }
    }
}
pub fn mmeq<S: Scal, const M: usize, const N: usize>(l: &str, a: Matrix<S, M, N>, b: Matrix<S, M, N>) {
    meq(l, a, b.into_array_of_arrays())
}
pub fn ceq<S: Scal>(l: &str, a: Complex<S>, b: Complex<S>) {
    let (a, b) = (a.into_array(), b.into_array());
    for (i, n) in ["re", "im"].iter().enumerate() {
        S::prove_eq(&format!("{} {}", l, n), a[i], b[i]);
    }
}
pub fn qeq<S: Scal>(l: &str, a: Quaternion<S>, b: Quaternion<S>) {
    let (a, b) = (a.into_array(), b.into_array());
    for (i, n) in ["w", "x", "y", "z"].iter().enumerate() {
        S::prove_eq(&format!("{} {}", l, n), a[i], b[i]);
    }
}
pub fn sum<S: Scal>(v: impl IntoIterator<Item = S>) -> S {
    let mut it = v.into_iter();
    let f = it.next().unwrap_or(S::zero());
    it.fold(f, |a, b| a + b)
}
