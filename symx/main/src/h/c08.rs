//! Float functions and broadcasts (C08).
use crate::util::*;

macro_rules! unary { ($m:ident) => { $m!(abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh floor ceil round trunc fract recip exp2 log10 exp_m1 ln_1p) } }

fn vec_unary<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let v = Vector::from_array(a);
    macro_rules! go { ($($f:ident)*) => { $( veq(stringify!($f), v.$f(), a.map(|x| <S as Float>::$f(x))); )* } }
    unary!(go);
    let (s, c) = v.sin_cos();
    veq("sin_cos.0", s, a.map(|x| x.sin()));
    veq("sin_cos.1", c, a.map(|x| x.cos()));
}
fn mat_unary<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let v = Matrix::from_array_of_arrays(a);
    macro_rules! go { ($($f:ident)*) => { $( meq(stringify!($f), v.$f(), a.map(|r| r.map(|x| <S as Float>::$f(x)))); )* } }
    unary!(go);
    let (s, c) = v.sin_cos();
    meq("sin_cos.0", s, a.map(|r| r.map(|x| x.sin())));
    meq("sin_cos.1", c, a.map(|r| r.map(|x| x.cos())));
}
const PW: [i32; 6] = [2, -1, 3, 0, 1, -2];
fn nonzero<S: Sc>(x: S) {
    S::assume(ne(x, S::zero()));
}
fn vec_binary<S: Sc, const N: usize>() {
    let (a, b, s) = (arr::<S, N>("a"), arr::<S, N>("b"), S::var("s"));
    a.iter().for_each(|x| nonzero(*x));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    macro_rules! two {
        ($($m:ident $f:ident),*) => { $(
            veq(concat!(stringify!($m), "(vector)"), va.$m(vb), core::array::from_fn(|i| <S as Float>::$f(a[i], b[i])));
            veq(concat!(stringify!($m), "(scalar)"), va.$m(s), core::array::from_fn(|i| <S as Float>::$f(a[i], s)));
        )* };
    }
    two!(abs_sub abs_sub, vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log);
    let p: [i32; N] = core::array::from_fn(|i| PW[i % 6]);
    veq("powi(vector)", va.powi(Vector::from_array(p)), core::array::from_fn(|i| a[i].powi(p[i])));
    for k in [-2, 0, 3] {
        veq(&format!("powi(scalar {})", k), va.powi(k), a.map(|x| x.powi(k)));
    }
}
fn vec_fma<S: Sc, const N: usize>() {
    let (a, b, c) = (arr::<S, N>("a"), arr::<S, N>("b"), arr::<S, N>("c"));
    let (s, t) = (S::var("s"), S::var("t"));
    let (va, vb, vc) = (Vector::from_array(a), Vector::from_array(b), Vector::from_array(c));
    veq("mul_add(v,v)", va.mul_add(vb, vc), core::array::from_fn(|i| a[i].mul_add(b[i], c[i])));
    veq("mul_add(s,v)", va.mul_add(s, vc), core::array::from_fn(|i| a[i].mul_add(s, c[i])));
    veq("mul_add(v,s)", va.mul_add(vb, s), core::array::from_fn(|i| a[i].mul_add(b[i], s)));
    veq("mul_add(s,t)", va.mul_add(s, t), core::array::from_fn(|i| a[i].mul_add(s, t)));
}
fn mat_fma<S: Sc, const M: usize, const N: usize>() {
    let (a, b, c, r, s) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"), arr2::<S, M, N>("c"), arr::<S, N>("r"), S::var("s"));
    let (va, vb, vc, vr) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b), Matrix::from_array_of_arrays(c), Vector::from_array(r));
    let w = |f: &dyn Fn(usize, usize) -> S| -> [[S; N]; M] { core::array::from_fn(|i| core::array::from_fn(|j| f(i, j))) };
    meq("mul_add(m,m)", va.mul_add(vb, vc), w(&|i, j| a[i][j].mul_add(b[i][j], c[i][j])));
    meq("mul_add(m,r)", va.mul_add(vb, vr), w(&|i, j| a[i][j].mul_add(b[i][j], r[j])));
    meq("mul_add(r,m)", va.mul_add(vr, vc), w(&|i, j| a[i][j].mul_add(r[j], c[i][j])));
    meq("mul_add(s,m)", va.mul_add(s, vc), w(&|i, j| a[i][j].mul_add(s, c[i][j])));
    meq("mul_add(m,s)", va.mul_add(vb, s), w(&|i, j| a[i][j].mul_add(b[i][j], s)));
    meq("mul_add(r,s)", va.mul_add(vr, s), w(&|i, j| a[i][j].mul_add(r[j], s)));
}
fn vec_ternary<S: Sc, const N: usize>() {
    let (a, b, c) = (arr::<S, N>("a"), arr::<S, N>("b"), arr::<S, N>("c"));
    let (s, t) = (S::var("s"), S::var("t"));
    let (va, vb, vc) = (Vector::from_array(a), Vector::from_array(b), Vector::from_array(c));
    vec_fma::<S, N>();
    // an interval: lower end not above the upper end
    S::assume(le(s, t));
    for i in 0..N {
        S::assume(le(b[i], c[i]));
        S::assume(le(s, c[i]));
        S::assume(le(b[i], t));
    }
    let cl = |x: S, l: S, h: S| Float::min(Float::max(x, l), h);
    veq("clamp(v,v)", va.clamp(vb, vc), core::array::from_fn(|i| cl(a[i], b[i], c[i])));
    veq("clamp(s,v)", va.clamp(s, vc), core::array::from_fn(|i| cl(a[i], s, c[i])));
    veq("clamp(v,s)", va.clamp(vb, t), core::array::from_fn(|i| cl(a[i], b[i], t)));
    veq("clamp(s,t)", va.clamp(s, t), core::array::from_fn(|i| cl(a[i], s, t)));
}
fn vec_broadcast<S: Sc, const N: usize>() {
    let (a, s) = (arr::<S, N>("a"), S::var("s"));
    let b: Vector<S, N> = Vector::from_array(a).broadcast();
    veq("vector", b, a);
    let b: Vector<S, N> = s.broadcast();
    veq("scalar", b, [s; N]);
}
fn mat_broadcast<S: Sc, const M: usize, const N: usize>() {
    let (a, r, s) = (arr2::<S, M, N>("a"), arr::<S, N>("r"), S::var("s"));
    let b: Matrix<S, M, N> = Matrix::from_array_of_arrays(a).broadcast();
    meq("matrix", b, a);
    let b: Matrix<S, M, N> = Vector::from_array(r).broadcast();
    meq("row", b, [r; M]);
    let b: Matrix<S, M, N> = s.broadcast();
    meq("scalar", b, [[s; N]; M]);
}
fn mat_binary<S: Sc, const M: usize, const N: usize>() {
    let (a, b, r, s) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"), arr::<S, N>("r"), S::var("s"));
    a.iter().flatten().for_each(|x| nonzero(*x));
    let (va, vb, vr) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b), Vector::from_array(r));
    macro_rules! two {
        ($($m:ident $f:ident),*) => { $(
            meq(concat!(stringify!($m), "(matrix)"), va.$m(vb), core::array::from_fn(|i| core::array::from_fn(|j| <S as Float>::$f(a[i][j], b[i][j]))));
            meq(concat!(stringify!($m), "(row)"), va.$m(vr), core::array::from_fn(|i| core::array::from_fn(|j| <S as Float>::$f(a[i][j], r[j]))));
            meq(concat!(stringify!($m), "(scalar)"), va.$m(s), core::array::from_fn(|i| core::array::from_fn(|j| <S as Float>::$f(a[i][j], s))));
        )* };
    }
    two!(abs_sub abs_sub, vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log);
    let p: [[i32; N]; M] = core::array::from_fn(|i| core::array::from_fn(|j| PW[(i * N + j) % 6]));
    meq("powi(matrix)", va.powi(Matrix::from_array_of_arrays(p)), core::array::from_fn(|i| core::array::from_fn(|j| a[i][j].powi(p[i][j]))));
    meq("powi(row)", va.powi(Vector::from_array(p[0])), core::array::from_fn(|i| core::array::from_fn(|j| a[i][j].powi(p[0][j]))));
    for k in [-2, 0, 3] {
        meq(&format!("powi(scalar {})", k), va.powi(k), a.map(|r| r.map(|x| x.powi(k))));
    }
}
fn mat_ternary<S: Sc, const M: usize, const N: usize>() {
    let (a, b, c) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"), arr2::<S, M, N>("c"));
    let (q, r, s, t) = (arr::<S, N>("q"), arr::<S, N>("r"), S::var("s"), S::var("t"));
    let (va, vb, vc) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b), Matrix::from_array_of_arrays(c));
    let (vq, vr) = (Vector::from_array(q), Vector::from_array(r));
    let lo: [&dyn Fn(usize, usize) -> S; 3] = [&|i, j| b[i][j], &|_, j| q[j], &|_, _| s];
    let hi: [&dyn Fn(usize, usize) -> S; 3] = [&|i, j| c[i][j], &|_, j| r[j], &|_, _| t];
    let names = ["matrix", "row", "scalar"];
    let call = |op: usize, x: usize, y: usize| -> Matrix<S, M, N> {
        macro_rules! on {
            ($m:ident) => {
                match (x, y) {
                    (0, 0) => va.$m(vb, vc),
                    (0, 1) => va.$m(vb, vr),
                    (0, _) => va.$m(vb, t),
                    (1, 0) => va.$m(vq, vc),
                    (1, 1) => va.$m(vq, vr),
                    (1, _) => va.$m(vq, t),
                    (_, 0) => va.$m(s, vc),
                    (_, 1) => va.$m(s, vr),
                    (_, _) => va.$m(s, t),
                }
            };
        }
        if op == 0 {
            on!(mul_add)
        } else {
            on!(clamp)
        }
    };
    for x in 0..3 {
        for y in 0..3 {
            meq(
                &format!("mul_add({},{})", names[x], names[y]),
                call(0, x, y),
                core::array::from_fn(|i| core::array::from_fn(|j| a[i][j] * lo[x](i, j) + hi[y](i, j))),
            );
        }
    }
    for i in 0..M {
        for j in 0..N {
            for x in 0..3 {
                for y in 0..3 {
                    S::assume(le(lo[x](i, j), hi[y](i, j)));
                }
            }
        }
    }
    for x in 0..3 {
        for y in 0..3 {
            meq(
                &format!("clamp({},{})", names[x], names[y]),
                call(1, x, y),
                core::array::from_fn(|i| core::array::from_fn(|j| Float::min(Float::max(a[i][j], lo[x](i, j)), hi[y](i, j)))),
            );
        }
    }
}
pub fn reg(v: &mut Vec<H>) {
    regx1!(v, Quick, ["C08"], vec_unary, [1 2 3 4 5 6 7 8 9]);
    regx1!(v, Quick, ["C08"], vec_binary, [1 2 3 4 5 6 7 8 9]);
    regx1!(v, Quick, ["C08"], vec_fma, [1 2 3 4 5 6 7 8 9]);
    regx2!(v, Quick, ["C08"], mat_unary, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5)]);
    regx2!(v, Quick, ["C08"], mat_binary, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5)]);
    regx2!(v, Quick, ["C08"], mat_fma, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5)]);
    reg1!(v, Quick, ["C08"], vec_unary, [1 2 3 4 5 6 7 8 9]);
    reg1!(v, Quick, ["C08"], vec_binary, [1 2 3 4 5 6 7 8 9]);
    reg1!(v, Quick, ["C08"], vec_ternary, [1 2 3 4 5]);
    reg1!(v, Quick, ["C08"], vec_broadcast, [1 2 3 4 5 6 7 8 9]);
    reg2!(v, Quick, ["C08"], mat_unary, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5) (5 2)]);
    reg2!(v, Quick, ["C08"], mat_binary, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 5) (5 1) (2 5) (5 2)]);
    reg2!(v, Quick, ["C08"], mat_ternary, [(1 1) (1 2) (2 1) (2 2) (2 3) (3 2) (1 5)]);
    reg2!(v, Quick, ["C08"], mat_broadcast, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1)]);
    reg1!(v, Quick, ["C08"], vec_ternary, [6 8]);
    reg2!(v, Quick, ["C08"], mat_ternary, [(3 3) (3 4) (5 1) (2 5) (5 2)]);
    reg1!(v, Quick, ["C08"], vec_unary, [16 17 33]);
    reg1!(v, Quick, ["C08"], vec_binary, [16 17 33]);
    reg1!(v, Quick, ["C08"], vec_ternary, [16 17]);
    reg2!(v, Quick, ["C08"], mat_unary, [(8 8) (1 17) (17 1)]);
    reg2!(v, Quick, ["C08"], mat_binary, [(8 8) (1 17) (17 1)]);
    reg2!(v, Quick, ["C08"], mat_ternary, [(4 4) (5 5)]);
    reg1!(v, Quick, ["C08"], vec_broadcast, [16 17 33]);
    reg2!(v, Quick, ["C08"], mat_broadcast, [(8 8) (1 17) (17 1)]);
    regx1!(v, Quick, ["C08"], vec_unary, [12 16 17 33]);
    regx1!(v, Quick, ["C08"], vec_binary, [12 16 17 33]);
    regx1!(v, Quick, ["C08"], vec_fma, [12 16 17 33]);
    regx2!(v, Quick, ["C08"], mat_unary, [(5 5) (5 2) (1 9) (9 1) (8 8)]);
    regx2!(v, Quick, ["C08"], mat_binary, [(5 5) (5 2) (1 9) (9 1) (8 8)]);
    regx2!(v, Quick, ["C08"], mat_fma, [(5 5) (5 2) (1 9) (9 1) (8 8)]);
    reg1!(v, Quick, ["C08"], vec_unary, [12 65]);
}
