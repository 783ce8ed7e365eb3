//! The impls that exist for the primitive floats only (macro-generated in the crate): scalar on the
//! left of a vector, complex number or quaternion, complex on the left of a quaternion, and the
//! norm/dot/conj/epsilon traits of f32 and f64.  Instantiated twice: at the symbolic scalars, in
//! the build where the crate's `f32`/`f64` name them (symx/shadow), and at the real f32/f64, in the
//! main binary, for replays.
pub type Row = (&'static str, &'static [&'static str], fn());

macro_rules! prims {
    ($m:ident, $S:ty, $p:literal) => {
        pub mod $m {
            use symcore::scal::{all, any, eq, le, ne};
            use symcore::Scal;
            use vecmat::traits::*;
            use vecmat::{Complex, Quaternion, Vector};
            type S = $S;

            fn arr<const N: usize>(n: &str) -> [S; N] {
                core::array::from_fn(|i| <S as Scal>::var(&format!("{}{}", n, i)))
            }
            fn same<const N: usize>(l: &str, a: [S; N], b: [S; N]) {
                for i in 0..N {
                    <S as Scal>::prove_eq(&format!("{} [{}]", l, i), a[i], b[i]);
                }
            }
            fn zero() -> S {
                <S as Scal>::k(0)
            }
            fn lmul<const N: usize>() {
                let (s, v) = (<S as Scal>::var("s"), arr::<N>("v"));
                same("s*v", (s * Vector::from_array(v)).into_array(), v.map(|x| s * x));
            }
            fn vector_left() {
                lmul::<1>();
                lmul::<2>();
                lmul::<3>();
                lmul::<4>();
                lmul::<7>();
            }
            fn complex_left() {
                let (s, v) = (<S as Scal>::var("s"), arr::<2>("v"));
                let z = Complex::from_array(v);
                same("s+z", (s + z).into_array(), [s + v[0], v[1]]);
                same("s-z", (s - z).into_array(), [s - v[0], -v[1]]);
                same("s*z", (s * z).into_array(), [s * v[0], s * v[1]]);
                let n = v[0] * v[0] + v[1] * v[1];
                <S as Scal>::assume(ne(n, zero()));
                same("s/z", (s / z).into_array(), [s * v[0] / n, -(s * v[1]) / n]);
            }
            fn quaternion_left() {
                let (s, v) = (<S as Scal>::var("s"), arr::<4>("v"));
                let q = Quaternion::from_array(v);
                same("s+q", (s + q).into_array(), [s + v[0], v[1], v[2], v[3]]);
                same("s-q", (s - q).into_array(), [s - v[0], -v[1], -v[2], -v[3]]);
                same("s*q", (s * q).into_array(), v.map(|x| s * x));
                let c = arr::<2>("c");
                let z = Complex::from_array(c);
                same("z+q", (z + q).into_array(), [c[0] + v[0], c[1] + v[1], v[2], v[3]]);
                same("z-q", (z - q).into_array(), [c[0] - v[0], c[1] - v[1], -v[2], -v[3]]);
                let n = v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3];
                <S as Scal>::assume(ne(n, zero()));
                let r = [s * v[0] / n, -(s * v[1]) / n, -(s * v[2]) / n, -(s * v[3]) / n];
                same("s/q", (s / q).into_array(), r);
            }
            fn modulus(l: &str, m: S, x: S) {
                <S as Scal>::prove(l, all(vec![le(zero(), m), any(vec![eq(m, x), eq(m, -x)])]));
            }
            fn norms() {
                let [x, y] = arr::<2>("x");
                modulus("norm_l1", x.norm_l1(), x);
                modulus("norm_l2", x.norm_l2(), x);
                modulus("norm_l_inf", x.norm_l_inf(), x);
                same("norm_l2_sqr", [x.norm_l2_sqr()], [x * x]);
                same("dot", [x.dot(y)], [x * y]);
                same("conj", [Conj::conj(x)], [x]);
            }
            fn epsilon() {
                let x = <S as Scal>::var("x");
                let e = <S>::EPSILON;
                <S as Scal>::prove_iff("is_epsilon", x.is_epsilon(), all(vec![le(-e, x), le(x, e)]));
            }
            pub fn table() -> Vec<super::Row> {
                vec![
                    (concat!("prim_vector_left_", $p), &["C05"], vector_left),
                    (concat!("prim_complex_left_", $p), &["C17"], complex_left),
                    (concat!("prim_quaternion_left_", $p), &["C17"], quaternion_left),
                    (concat!("prim_norms_", $p), &["C09"], norms),
                    (concat!("prim_epsilon_", $p), &["C09"], epsilon),
                ]
            }
        }
    };
}
