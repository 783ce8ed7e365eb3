//! Vector and matrix arithmetic (C05, C06).
use crate::util::*;

fn vec_arith<S: Sc, const N: usize>() {
    let (a, b, s) = (arr::<S, N>("a"), arr::<S, N>("b"), S::var("s"));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let f = |g: &dyn Fn(S, S) -> S| -> [S; N] { core::array::from_fn(|i| g(a[i], b[i])) };
    let h = |g: &dyn Fn(S, S) -> S| -> [S; N] { core::array::from_fn(|i| g(a[i], s)) };
    veq("-a", -va, a.map(|x| -x));
    veq("a+b", va + vb, f(&|x, y| x + y));
    veq("a-b", va - vb, f(&|x, y| x - y));
    veq("a*b", va * vb, f(&|x, y| x * y));
    veq("a/b", va / vb, f(&|x, y| x / y));
    veq("a%b", va % vb, f(&|x, y| x % y));
    veq("a*s", va * s, h(&|x, y| x * y));
    veq("a/s", va / s, h(&|x, y| x / y));
    veq("a%s", va % s, h(&|x, y| x % y));
    macro_rules! asg {
        ($l:literal, $op:tt, $r:expr, $x:expr) => {{
            let mut v = va;
            v $op $r;
            veq($l, v, $x);
        }};
    }
    asg!("a+=b", +=, vb, f(&|x, y| x + y));
    asg!("a-=b", -=, vb, f(&|x, y| x - y));
    asg!("a*=b", *=, vb, f(&|x, y| x * y));
    asg!("a/=b", /=, vb, f(&|x, y| x / y));
    asg!("a%=b", %=, vb, f(&|x, y| x % y));
    asg!("a*=s", *=, s, h(&|x, y| x * y));
    asg!("a/=s", /=, s, h(&|x, y| x / y));
    asg!("a%=s", %=, s, h(&|x, y| x % y));
    veq("zero", Vector::<S, N>::zero(), [S::zero(); N]);
    veq("0+a", Vector::<S, N>::zero() + va, a);
    veq("a+0", va + Vector::<S, N>::zero(), a);
}
fn vec_is_zero<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let r = Vector::from_array(a).is_zero();
    S::prove_iff("is_zero", r, all(a.iter().map(|x| eq(*x, S::zero())).collect()));
}
/// Element type without a commutative product.
fn vec_quat_elements<S: Sc, const N: usize>() {
    let a: [Quaternion<S>; N] = core::array::from_fn(|i| quat(&format!("a{}", i)));
    let b: [Quaternion<S>; N] = core::array::from_fn(|i| quat(&format!("b{}", i)));
    let s: Quaternion<S> = quat("s");
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let m = (va * vb).into_array();
    let ms = (va * s).into_array();
    let mut x = va;
    x *= vb;
    let x = x.into_array();
    let mut y = va;
    y *= s;
    let y = y.into_array();
    for i in 0..N {
        qeq("a*b", m[i], a[i] * b[i]);
        qeq("a*s", ms[i], a[i] * s);
        qeq("a*=b", x[i], a[i] * b[i]);
        qeq("a*=s", y[i], a[i] * s);
    }
}

fn mat_arith<S: Sc, const M: usize, const N: usize>() {
    let (a, b, s) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"), S::var("s"));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let f = |g: &dyn Fn(S, S) -> S| -> [[S; N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| g(a[i][j], b[i][j])))
    };
    let h = |g: &dyn Fn(S, S) -> S| -> [[S; N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| g(a[i][j], s)))
    };
    meq("-a", -va, h(&|x, _| -x));
    meq("a+b", va + vb, f(&|x, y| x + y));
    meq("a-b", va - vb, f(&|x, y| x - y));
    meq("a*b", va * vb, f(&|x, y| x * y));
    meq("a/b", va / vb, f(&|x, y| x / y));
    meq("a%b", va % vb, f(&|x, y| x % y));
    meq("a*s", va * s, h(&|x, y| x * y));
    meq("a/s", va / s, h(&|x, y| x / y));
    meq("a%s", va % s, h(&|x, y| x % y));
    macro_rules! asg {
        ($l:literal, $op:tt, $r:expr, $x:expr) => {{
            let mut v = va;
            v $op $r;
            meq($l, v, $x);
        }};
    }
    asg!("a+=b", +=, vb, f(&|x, y| x + y));
    asg!("a-=b", -=, vb, f(&|x, y| x - y));
    asg!("a*=b", *=, vb, f(&|x, y| x * y));
    asg!("a/=b", /=, vb, f(&|x, y| x / y));
    asg!("a%=b", %=, vb, f(&|x, y| x % y));
    asg!("a*=s", *=, s, h(&|x, y| x * y));
    asg!("a/=s", /=, s, h(&|x, y| x / y));
    asg!("a%=s", %=, s, h(&|x, y| x % y));
    meq("zero", Matrix::<S, M, N>::zero(), [[S::zero(); N]; M]);
    meq("0+a", Matrix::<S, M, N>::zero() + va, a);
    meq("a+0", va + Matrix::<S, M, N>::zero(), a);
}
fn mat_is_zero<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let r = Matrix::from_array_of_arrays(a).is_zero();
    S::prove_iff("is_zero", r, all(a.iter().flatten().map(|x| eq(*x, S::zero())).collect()));
}
fn mat_quat_elements<S: Sc, const M: usize, const N: usize>() {
    let a: [[Quaternion<S>; N]; M] = core::array::from_fn(|i| core::array::from_fn(|j| quat(&format!("a{}{}_", i, j))));
    let b: [[Quaternion<S>; N]; M] = core::array::from_fn(|i| core::array::from_fn(|j| quat(&format!("b{}{}_", i, j))));
    let s: Quaternion<S> = quat("s");
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let m = (va * vb).into_array_of_arrays();
    let ms = (va * s).into_array_of_arrays();
    let mut x = va;
    x *= vb;
    let x = x.into_array_of_arrays();
    let mut y = va;
    y *= s;
    let y = y.into_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            qeq("a*b", m[i][j], a[i][j] * b[i][j]);
            qeq("a*s", ms[i][j], a[i][j] * s);
            qeq("a*=b", x[i][j], a[i][j] * b[i][j]);
            qeq("a*=s", y[i][j], a[i][j] * s);
        }
    }
}

pub fn reg(v: &mut Vec<H>) {
    regx1!(v, Quick, ["C05"], vec_arith, [1 2 3 4 5 6 7 8 9 16]);
    regx2!(v, Quick, ["C06"], mat_arith, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1)]);
    reg1!(v, Quick, ["C05"], vec_arith, [1 2 3 4 5 6 7 8 9 10 12 16 17]);
    reg1!(v, Quick, ["C05"], vec_is_zero, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C05"], vec_arith, [33 64]);
    reg1!(v, Quick, ["C05"], vec_is_zero, [17 32]);
    reg2!(v, Quick, ["C06"], mat_arith, [(8 8) (9 9) (1 17) (17 1) (16 16)]);
    reg2!(v, Quick, ["C06"], mat_is_zero, [(5 5) (1 17) (17 1) (6 6)]);
    reg1!(v, Quick, ["C05"], vec_quat_elements, [1 2 3 4 5 6 9]);
    reg2!(v, Quick, ["C06"], mat_arith, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6) (6 6)]);
    reg2!(v, Quick, ["C06"], mat_is_zero, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5) (5 2)]);
    reg2!(v, Quick, ["C06"], mat_quat_elements, [(1 1) (1 2) (2 1) (2 2) (2 3) (3 2) (3 3) (1 5) (5 1)]);
    regx1!(v, Quick, ["C05"], vec_arith, [10 12 17 33]);
    reg1!(v, Quick, ["C05"], vec_arith, [11 15 65]);
    reg1!(v, Quick, ["C05"], vec_is_zero, [10 12 33 65]);
    regx2!(v, Quick, ["C06"], mat_arith, [(5 5) (1 9) (9 1) (6 6) (1 17) (17 1)]);
    reg2!(v, Quick, ["C06"], mat_is_zero, [(1 9) (9 1) (8 8) (3 5) (5 3)]);
    reg2!(v, Quick, ["C06"], mat_arith, [(7 7) (1 33) (33 1) (1 65)]);
}
