//! Reductions, norms, iterator sums and products (C09).
use crate::util::*;

fn vec_reduce<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let v = Vector::from_array(a);
    S::prove_eq("sum", v.sum(), sum(a));
    let m = v.max();
    S::prove("max is a component", any(a.iter().map(|x| eq(*x, m)).collect()));
    S::prove("max is greatest", all(a.iter().map(|x| le(*x, m)).collect()));
    let m = v.min();
    S::prove("min is a component", any(a.iter().map(|x| eq(*x, m)).collect()));
    S::prove("min is least", all(a.iter().map(|x| le(m, *x)).collect()));
}
fn mat_reduce<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let f: Vec<S> = a.iter().flatten().cloned().collect();
    let v = Matrix::from_array_of_arrays(a);
    S::prove_eq("sum", v.sum(), sum(f.iter().cloned()));
    if choose::<S>("which", 2) == 0 {
        let m = v.max();
        S::prove("max is an element", any(f.iter().map(|x| eq(*x, m)).collect()));
        S::prove("max is greatest", all(f.iter().map(|x| le(*x, m)).collect()));
    } else {
        let m = v.min();
        S::prove("min is an element", any(f.iter().map(|x| eq(*x, m)).collect()));
        S::prove("min is least", all(f.iter().map(|x| le(m, *x)).collect()));
    }
}
/// Larger sizes: the order of the elements is a rotation of an ascending or descending one, so that
/// the greatest and the least one stand anywhere.
fn rotated<S: Sc>(a: &[S]) -> (S, S) {
    let n = a.len();
    let r = choose::<S>("start", n);
    let down = choose::<S>("down", 2) == 1;
    for i in 1..n {
        let (x, y) = (a[(r + i - 1) % n], a[(r + i) % n]);
        S::assume(if down { lt(y, x) } else { lt(x, y) });
    }
    let (f, l) = (a[r], a[(r + n - 1) % n]);
    if down {
        (l, f)
    } else {
        (f, l)
    }
}
fn vec_reduce_rotated<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let (lo, hi) = rotated(&a);
    let v = Vector::from_array(a);
    S::prove_eq("max", v.max(), hi);
    S::prove_eq("min", v.min(), lo);
    S::prove_eq("sum", v.sum(), sum(a));
}
fn mat_reduce_rotated<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let f: Vec<S> = a.iter().flatten().cloned().collect();
    let (lo, hi) = rotated(&f);
    let v = Matrix::from_array_of_arrays(a);
    S::prove_eq("max", v.max(), hi);
    S::prove_eq("min", v.min(), lo);
    S::prove_eq("sum", v.sum(), sum(f.iter().cloned()));
}
fn vec_norm_inf_rotated<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    // alternating signs, rotated order of the moduli
    for (i, x) in a.iter().enumerate() {
        S::assume(if i % 2 == 0 { le(S::zero(), *x) } else { le(*x, S::zero()) });
    }
    let f: Vec<S> = a.iter().enumerate().map(|(i, x)| if i % 2 == 0 { *x } else { -*x }).collect();
    let (_, hi) = rotated(&f);
    S::prove_eq("norm_l_inf", Vector::from_array(a).norm_l_inf(), hi);
}
fn mat_norm_inf_rotated<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let f: Vec<S> = a.iter().flatten().cloned().collect();
    for (i, x) in f.iter().enumerate() {
        S::assume(if i % 2 == 0 { le(S::zero(), *x) } else { le(*x, S::zero()) });
    }
    let f: Vec<S> = f.iter().enumerate().map(|(i, x)| if i % 2 == 0 { *x } else { -*x }).collect();
    let (_, hi) = rotated(&f);
    S::prove_eq("norm_l_inf", Matrix::from_array_of_arrays(a).norm_l_inf(), hi);
}
fn abs_of<S: Scal>(l: &str, m: S, x: S) {
    S::prove(l, all(vec![le(S::zero(), m), any(vec![eq(m, x), eq(m, -x)])]));
}
fn l2<S: Sc>(l: &str, n: S, sq: S) {
    S::prove(&format!("{}: not negative", l), le(S::zero(), n));
    S::prove_eq(&format!("{}: square", l), n * n, sq);
}
fn vec_norms<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let v = Vector::from_array(a);
    S::prove_eq("norm_l1", v.norm_l1(), sum(a.iter().map(|x| Float::abs(*x))));
    let sq = sum(a.iter().map(|x| *x * *x));
    S::prove_eq("norm_l2_sqr", v.norm_l2_sqr(), sq);
    S::prove_eq("square_length", v.square_length(), sq);
    l2("norm_l2", v.norm_l2(), sq);
    l2("length", v.length(), sq);
}
fn vec_norm_inf<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let m = Vector::from_array(a).norm_l_inf();
    S::prove("a modulus", any(a.iter().map(|x| eq(Float::abs(*x), m)).collect()));
    S::prove("greatest", all(a.iter().map(|x| le(Float::abs(*x), m)).collect()));
}
fn mat_norms<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let f: Vec<S> = a.iter().flatten().cloned().collect();
    let v = Matrix::from_array_of_arrays(a);
    S::prove_eq("norm_l1", v.norm_l1(), sum(f.iter().map(|x| Float::abs(*x))));
    let sq = sum(f.iter().map(|x| *x * *x));
    S::prove_eq("norm_l2_sqr", v.norm_l2_sqr(), sq);
    l2("norm_l2", v.norm_l2(), sq);
}
fn mat_norm_inf<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let f: Vec<S> = a.iter().flatten().cloned().collect();
    let m = Matrix::from_array_of_arrays(a).norm_l_inf();
    S::prove("a modulus", any(f.iter().map(|x| eq(Float::abs(*x), m)).collect()));
    S::prove("greatest", all(f.iter().map(|x| le(Float::abs(*x), m)).collect()));
}
fn comp_norms<S: Sc>() {
    let a = arr::<S, 2>("a");
    let z = Complex::from_array(a);
    S::prove_eq("norm_l1", z.norm_l1(), Float::abs(a[0]) + Float::abs(a[1]));
    let sq = a[0] * a[0] + a[1] * a[1];
    S::prove_eq("norm_l2_sqr", z.norm_l2_sqr(), sq);
    S::prove_eq("norm_sqr", z.norm_sqr(), sq);
    l2("norm_l2", z.norm_l2(), sq);
    l2("norm", z.norm(), sq);
}
fn quat_norms<S: Sc>() {
    let a = arr::<S, 4>("a");
    let z = Quaternion::from_array(a);
    S::prove_eq("norm_l1", z.norm_l1(), sum(a.iter().map(|x| Float::abs(*x))));
    let sq = sum(a.iter().map(|x| *x * *x));
    S::prove_eq("norm_l2_sqr", z.norm_l2_sqr(), sq);
    S::prove_eq("norm_sqr", z.norm_sqr(), sq);
    l2("norm_l2", z.norm_l2(), sq);
    l2("norm", z.norm(), sq);
}
/// Sources of symbolic length 0..=3.
fn vec_iter_sums<S: Sc, const N: usize>() {
    let len = choose::<S>("len", 4);
    let a: Vec<[S; N]> = (0..len).map(|i| arr(&format!("a{}_", i))).collect();
    let it = || a.iter().map(|x| Vector::from_array(*x));
    veq("Sum", it().sum::<Vector<S, N>>(), core::array::from_fn(|i| a.iter().fold(S::zero(), |p, x| p + x[i])));
    veq("Product", it().product::<Vector<S, N>>(), core::array::from_fn(|i| a.iter().fold(S::one(), |p, x| p * x[i])));
}
fn mat_iter_sums<S: Sc, const M: usize, const N: usize>() {
    let len = choose::<S>("len", 4);
    let a: Vec<[[S; N]; M]> = (0..len).map(|i| arr2(&format!("a{}_", i))).collect();
    let it = || a.iter().map(|x| Matrix::from_array_of_arrays(*x));
    meq("Sum", it().sum::<Matrix<S, M, N>>(), core::array::from_fn(|i| core::array::from_fn(|j| a.iter().fold(S::zero(), |p, x| p + x[i][j]))));
    meq("Product", it().product::<Matrix<S, M, N>>(), core::array::from_fn(|i| core::array::from_fn(|j| a.iter().fold(S::one(), |p, x| p * x[i][j]))));
}
fn comp_iter_sums<S: Sc>() {
    let len = choose::<S>("len", 4);
    let a: Vec<Complex<S>> = (0..len).map(|i| comp(&format!("a{}_", i))).collect();
    ceq("Sum", a.iter().cloned().sum(), a.iter().fold(Complex::zero(), |p, x| p + *x));
    ceq("Product", a.iter().cloned().product(), a.iter().fold(Complex::one(), |p, x| p * *x));
}
fn quat_iter_sums<S: Sc>() {
    let len = choose::<S>("len", 4);
    let a: Vec<Quaternion<S>> = (0..len).map(|i| quat(&format!("a{}_", i))).collect();
    qeq("Sum", a.iter().cloned().sum(), a.iter().fold(Quaternion::zero(), |p, x| p + *x));
    qeq("Product", a.iter().cloned().product(), a.iter().fold(Quaternion::one(), |p, x| p * *x));
}
/// Products of vectors of quaternions keep the order.
fn vec_quat_products<S: Sc>() {
    let len = choose::<S>("len", 4);
    let a: Vec<[Quaternion<S>; 2]> = (0..len).map(|i| [quat(&format!("a{}_", i)), quat(&format!("b{}_", i))]).collect();
    let p = a.iter().map(|x| Vector::from_array(*x)).product::<Vector<_, 2>>().into_array();
    for i in 0..2 {
        qeq("vector Product", p[i], a.iter().fold(Quaternion::one(), |p, x| p * x[i]));
    }
    let p = a.iter().map(|x| Matrix::from_array_of_arrays([*x])).product::<Matrix<_, 1, 2>>().into_array_of_arrays();
    for i in 0..2 {
        qeq("matrix Product", p[0][i], a.iter().fold(Quaternion::one(), |p, x| p * x[i]));
    }
}
pub fn reg(v: &mut Vec<H>) {
    regx1!(v, Quick, ["C09"], vec_iter_sums, [1 2 3 5]);
    regx2!(v, Quick, ["C09"], mat_iter_sums, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4)]);
    reg1!(v, Quick, ["C09"], vec_reduce, [1 2 3 4 5]);
    reg1!(v, Quick, ["C09"], vec_reduce_rotated, [6 7 8 9]);
    reg1!(v, Thorough, ["C09"], vec_reduce_rotated, [16 17]);
    reg2!(v, Quick, ["C09"], mat_reduce_rotated, [(2 3) (3 2) (2 4) (4 2) (1 6) (6 1) (3 3) (2 5) (5 2)]);
    reg2!(v, Thorough, ["C09"], mat_reduce_rotated, [(4 4) (5 5)]);
    reg1!(v, Quick, ["C09"], vec_norm_inf_rotated, [6 7 8 9]);
    reg2!(v, Quick, ["C09"], mat_norm_inf_rotated, [(2 4) (4 2) (1 6) (6 1) (3 3) (2 5) (5 2)]);
    reg1!(v, Thorough, ["C09"], vec_reduce, [6]);
    reg2!(v, Quick, ["C09"], mat_reduce, [(1 1) (1 3) (3 1) (2 2) (2 3) (3 2) (1 5) (5 1)]);
    reg2!(v, Thorough, ["C09"], mat_reduce, [(2 4) (3 3)]);
    reg2!(v, Thorough, ["C09"], mat_norm_inf, [(2 4) (4 2) (1 6) (6 1)]);
    reg1!(v, Quick, ["C09"], vec_norms, [1 2 3 4 5 6 7 8 9]);
    reg1!(v, Quick, ["C09"], vec_norm_inf, [1 2 3 4 5]);
    reg2!(v, Quick, ["C09"], mat_norms, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5)]);
    reg2!(v, Quick, ["C09"], mat_norm_inf, [(1 1) (1 3) (3 1) (2 2) (2 3) (3 2) (1 5) (5 1)]);
    reg!(v, Quick, ["C09"], comp_norms);
    reg!(v, Quick, ["C09"], quat_norms);
    reg1!(v, Quick, ["C09"], vec_iter_sums, [1 2 3 4 5 6 7 9]);
    reg2!(v, Quick, ["C09"], mat_iter_sums, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1)]);
    reg!(v, Quick, ["C09"], comp_iter_sums);
    reg!(v, Quick, ["C09"], quat_iter_sums);
    reg!(v, Quick, ["C09"], vec_quat_products);
    reg1!(v, Quick, ["C09"], vec_norms, [16 17 33]);
    reg2!(v, Quick, ["C09"], mat_norms, [(1 17) (17 1) (8 8)]);
    reg1!(v, Quick, ["C09"], vec_iter_sums, [16 17]);
    reg2!(v, Quick, ["C09"], mat_iter_sums, [(5 5)]);
    reg1!(v, Quick, ["C09"], vec_norm_inf, [6]);
    reg2!(v, Quick, ["C09"], mat_reduce_rotated, [(3 4) (4 3) (1 9) (9 1)]);
}
