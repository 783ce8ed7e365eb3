//! Products of vectors and matrices (C11, C12).
use crate::util::*;

fn vec_dot<S: Sc, const N: usize>() {
    let (a, b, c, s) = (arr::<S, N>("a"), arr::<S, N>("b"), arr::<S, N>("c"), S::var("s"));
    let (va, vb, vc) = (Vector::from_array(a), Vector::from_array(b), Vector::from_array(c));
    S::prove_eq("dot", va.dot(vb), sum((0..N).map(|i| a[i] * b[i])));
    S::prove_eq("symmetric", va.dot(vb), vb.dot(va));
    S::prove_eq("left linear", (va * s + vb).dot(vc), s * va.dot(vc) + vb.dot(vc));
    S::prove_eq("right linear", vc.dot(va * s + vb), s * vc.dot(va) + vc.dot(vb));
}
fn vec_outer<S: Sc, const M: usize, const N: usize>() {
    let (a, b) = (arr::<S, M>("a"), arr::<S, N>("b"));
    let o = Vector::from_array(a).outer(Vector::from_array(b));
    meq("outer", o, core::array::from_fn(|i| core::array::from_fn(|j| a[i] * b[j])));
}
fn qarr<S: Sc, const N: usize>(n: &str) -> [Quaternion<S>; N] {
    core::array::from_fn(|i| quat(&format!("{}{}_", n, i)))
}
fn qarr2<S: Sc, const M: usize, const N: usize>(n: &str) -> [[Quaternion<S>; N]; M] {
    core::array::from_fn(|i| qarr(&format!("{}{}_", n, i)))
}
fn qsum<S: Sc>(v: impl IntoIterator<Item = Quaternion<S>>) -> Quaternion<S> {
    v.into_iter().fold(Quaternion::zero(), |a, b| a + b)
}
/// Factors must keep their order for elements that do not commute.
fn vec_products_quat<S: Sc, const M: usize, const N: usize>() {
    let (a, b, c) = (qarr::<S, M>("a"), qarr::<S, N>("b"), qarr::<S, N>("c"));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    qeq("dot", vb.dot(Vector::from_array(c)), qsum((0..N).map(|i| b[i] * c[i])));
    let o = va.outer(vb).into_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            qeq("outer", o[i][j], a[i] * b[j]);
        }
    }
    let m = qarr2::<S, M, N>("m");
    let mm = Matrix::from_array_of_arrays(m);
    let (x, y) = (mm.dot(vb).into_array(), va.dot(mm).into_array());
    for i in 0..M {
        qeq("matrix.dot(vector)", x[i], qsum((0..N).map(|k| m[i][k] * b[k])));
    }
    for j in 0..N {
        qeq("vector.dot(matrix)", y[j], qsum((0..M).map(|k| a[k] * m[k][j])));
    }
}
fn mat_products_quat<S: Sc, const L: usize, const M: usize, const N: usize>() {
    let (m, n) = (qarr2::<S, L, M>("m"), qarr2::<S, M, N>("n"));
    let p = Matrix::from_array_of_arrays(m).dot(Matrix::from_array_of_arrays(n)).into_array_of_arrays();
    for i in 0..L {
        for j in 0..N {
            qeq("matrix.dot(matrix)", p[i][j], qsum((0..M).map(|k| m[i][k] * n[k][j])));
        }
    }
}
fn mat_one<S: Sc, const N: usize>() {
    let one = Matrix::<S, N, N>::one();
    meq("one", one, core::array::from_fn(|i| core::array::from_fn(|j| if i == j { S::one() } else { S::zero() })));
    let (a, v) = (mat::<S, N, N>("a"), vec::<S, N>("v"));
    mmeq("left neutral", one.dot(a), a);
    mmeq("right neutral", a.dot(one), a);
    vveq("on a vector", one.dot(v), v);
    vveq("on a row", v.dot(one), v);
}
/// Complex numbers and quaternions take dot products as coordinate vectors.
fn dot_numbers<S: Sc>() {
    let (a, b) = (arr::<S, 4>("a"), arr::<S, 4>("b"));
    let d2 = a[0] * b[0] + a[1] * b[1];
    S::prove_eq("complex", Dot::dot(Complex::new(a[0], a[1]), Complex::new(b[0], b[1])), d2);
    let d4 = d2 + a[2] * b[2] + a[3] * b[3];
    S::prove_eq("quaternion", Dot::dot(Quaternion::from_array(a), Quaternion::from_array(b)), d4);
}
fn cross2<S: Sc>() {
    let (a, b, c, s) = (arr::<S, 2>("a"), arr::<S, 2>("b"), arr::<S, 2>("c"), S::var("s"));
    let (va, vb, vc) = (Vector::from_array(a), Vector::from_array(b), Vector::from_array(c));
    S::prove_eq("signed area", va.cross(vb), a[0] * b[1] - a[1] * b[0]);
    S::prove_eq("antisymmetric", va.cross(vb), -vb.cross(va));
    S::prove_eq("linear", (va * s + vb).cross(vc), s * va.cross(vc) + vb.cross(vc));
}
fn cross3<S: Sc>() {
    let (a, b, c, s) = (vec::<S, 3>("a"), vec::<S, 3>("b"), vec::<S, 3>("c"), S::var("s"));
    vveq("antisymmetric", a.cross(b), -b.cross(a));
    vveq("left linear", (a * s + b).cross(c), a.cross(c) * s + b.cross(c));
    vveq("right linear", c.cross(a * s + b), c.cross(a) * s + c.cross(b));
    S::prove_eq("orthogonal to the first", a.cross(b).dot(a), S::zero());
    S::prove_eq("orthogonal to the second", a.cross(b).dot(b), S::zero());
    S::prove_eq("Lagrange", a.cross(b).square_length(), a.square_length() * b.square_length() - a.dot(b) * a.dot(b));
    veq("Jacobi", a.cross(b.cross(c)) + b.cross(c.cross(a)) + c.cross(a.cross(b)), [S::zero(); 3]);
    let (o, z) = (S::one(), S::zero());
    let e = [[o, z, z], [z, o, z], [z, z, o]];
    for i in 0..3 {
        let (x, y) = (Vector::from_array(e[i]), Vector::from_array(e[(i + 1) % 3]));
        veq("basis", x.cross(y), e[(i + 2) % 3]);
    }
    let (x, y) = (a.into_array(), b.into_array());
    veq("components", a.cross(b), [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]);
}
fn cross4<S: Sc>() {
    let (a, b) = (arr::<S, 4>("a"), arr::<S, 4>("b"));
    let c = Vector::from_array(a).cross(Vector::from_array(b)).into_array();
    let d = Vector::from_array([a[0], a[1], a[2]]).cross(Vector::from_array([b[0], b[1], b[2]])).into_array();
    for i in 0..3 {
        S::prove_eq("3D part", c[i], d[i]);
    }
    S::prove_eq("fourth", c[3], S::zero());
}

// ---------------------------------------------------------------- matrix products
fn mat_dot<S: Sc, const L: usize, const M: usize, const N: usize>() {
    let (a, b, v, w) = (arr2::<S, L, M>("a"), arr2::<S, M, N>("b"), arr::<S, M>("v"), arr::<S, M>("w"));
    let (ma, mb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    meq("matrix.dot(matrix)", ma.dot(mb), core::array::from_fn(|i| core::array::from_fn(|j| sum((0..M).map(|k| a[i][k] * b[k][j])))));
    veq("matrix.dot(vector)", ma.dot(Vector::from_array(v)), core::array::from_fn(|i| sum((0..M).map(|k| a[i][k] * v[k]))));
    veq("vector.dot(matrix)", Vector::from_array(w).dot(mb), core::array::from_fn(|j| sum((0..M).map(|k| w[k] * b[k][j]))));
    mmeq("transpose of a product", ma.dot(mb).transpose(), mb.transpose().dot(ma.transpose()));
    vveq("row and column products", Vector::from_array(w).dot(mb), mb.transpose().dot(Vector::from_array(w)));
}
fn mat_ring<S: Sc, const M: usize, const N: usize>() {
    // shapes M x N, N x M, M x N
    let (a, b, b2, c) = (mat::<S, M, N>("a"), mat::<S, N, M>("b"), mat::<S, N, M>("d"), mat::<S, M, N>("c"));
    mmeq("associative", a.dot(b).dot(c), a.dot(b.dot(c)));
    mmeq("left distributive", a.dot(b + b2), a.dot(b) + a.dot(b2));
    mmeq("right distributive", (b + b2).dot(c), b.dot(c) + b2.dot(c));
    mmeq("left neutral", Matrix::<S, M, M>::one().dot(a), a);
    mmeq("right neutral", a.dot(Matrix::<S, N, N>::one()), a);
    let v = vec::<S, M>("v");
    vveq("action", a.dot(b).dot(v), a.dot(b.dot(v)));
    vveq("right action", v.dot(a).dot(b), v.dot(a.dot(b)));
}
pub fn reg(v: &mut Vec<H>) {
    reg1!(v, Quick, ["C11"], vec_dot, [1 2 3 4 5 6 7 8 9 10 12 16]);
    reg2!(v, Quick, ["C11"], vec_outer, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6)]);
    reg2!(v, Quick, ["C11", "C12"], vec_products_quat, [(1 1) (1 2) (2 1) (2 2) (1 3) (3 1) (2 3) (3 2) (3 3) (1 5) (5 1) (4 4)]);
    reg3!(v, Quick, ["C12"], mat_products_quat, [(1 1 1) (1 2 1) (2 1 2) (1 1 2) (2 1 1) (2 2 1) (1 2 2) (2 2 2) (2 3 1) (1 3 2) (3 2 3) (3 3 3) (1 5 1) (5 1 5)]);
    reg1!(v, Quick, ["C12"], mat_one, [1 2 3 4 5 6 7 8 9]);
    reg1!(v, Quick, ["C12"], mat_one, [16 17]);
    reg!(v, Quick, ["C11"], dot_numbers);
    reg!(v, Quick, ["C11"], cross2);
    reg!(v, Quick, ["C11"], cross3);
    reg!(v, Quick, ["C11"], cross4);
    reg3!(v, Quick, ["C12"], mat_dot, [(1 1 1) (1 1 2) (1 1 3) (1 1 4) (1 2 1) (1 2 2) (1 2 3) (1 2 4) (1 3 1) (1 3 2) (1 3 3) (1 3 4) (1 4 1) (1 4 2) (1 4 3) (1 4 4) (2 1 1) (2 1 2) (2 1 3) (2 1 4) (2 2 1) (2 2 2) (2 2 3) (2 2 4) (2 3 1) (2 3 2) (2 3 3) (2 3 4) (2 4 1) (2 4 2) (2 4 3) (2 4 4) (3 1 1) (3 1 2) (3 1 3) (3 1 4) (3 2 1) (3 2 2) (3 2 3) (3 2 4) (3 3 1) (3 3 2) (3 3 3) (3 3 4) (3 4 1) (3 4 2) (3 4 3) (3 4 4) (4 1 1) (4 1 2) (4 1 3) (4 1 4) (4 2 1) (4 2 2) (4 2 3) (4 2 4) (4 3 1) (4 3 2) (4 3 3) (4 3 4) (4 4 1) (4 4 2) (4 4 3) (4 4 4) (1 6 1) (6 1 6) (2 5 2) (5 2 5) (5 3 2) (2 9 2) (5 5 5) (6 2 5) (1 5 1) (5 1 5) (5 5 1) (1 5 5) (9 1 1) (1 1 9) (1 9 1)]);
    reg2!(v, Quick, ["C12"], mat_ring, [(1 1) (1 2) (2 1) (2 2) (2 3) (3 2) (3 3)]);
    reg2!(v, Quick, ["C12"], mat_ring, [(3 4) (4 3) (4 4)]);
    reg1!(v, Quick, ["C11"], vec_dot, [17 33]);
    reg2!(v, Quick, ["C11"], vec_outer, [(8 8) (1 17) (17 1)]);
    reg3!(v, Quick, ["C12"], mat_dot, [(6 6 6) (8 8 8) (1 17 1) (17 1 17) (9 2 9)]);
    reg2!(v, Quick, ["C12"], mat_ring, [(1 5) (5 1) (2 5) (5 2) (5 5)]);
    reg1!(v, Quick, ["C11"], vec_dot, [11 15 32 64 65]);
    reg2!(v, Quick, ["C11"], vec_outer, [(9 9) (1 33) (33 1)]);
}
