//! Complex field, quaternion ring, mixed operators, matrix representations (C15-C18).
use crate::util::*;
use num_complex::Complex as NC;

fn nz_c<S: Sc>(z: Complex<S>) {
    S::assume(ne(z.re() * z.re() + z.im() * z.im(), S::zero()));
}
fn nz_q<S: Sc>(q: Quaternion<S>) {
    let [a, b, c, d] = q.into_array();
    S::assume(ne(a * a + b * b + c * c + d * d, S::zero()));
}
fn c<S>(a: S, b: S) -> Complex<S> {
    Complex::new(a, b)
}
fn q<S>(a: S, b: S, c: S, d: S) -> Quaternion<S> {
    Quaternion::new(a, b, c, d)
}

fn complex_ops<S: Sc>() {
    let (a, b) = (arr::<S, 2>("a"), arr::<S, 2>("b"));
    let (x, y) = (Complex::from_array(a), Complex::from_array(b));
    ceq("add", x + y, c(a[0] + b[0], a[1] + b[1]));
    ceq("sub", x - y, c(a[0] - b[0], a[1] - b[1]));
    ceq("neg", -x, c(-a[0], -a[1]));
    ceq("mul", x * y, c(a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]));
    ceq("conj", x.conj(), c(a[0], -a[1]));
    ceq("Conj", Conj::conj(x), x.conj());
    S::prove_eq("norm_sqr", x.norm_sqr(), a[0] * a[0] + a[1] * a[1]);
    let f = |g: fn(&mut Complex<S>, Complex<S>)| {
        let mut z = x;
        g(&mut z, y);
        z
    };
    ceq("add_assign", f(|p, q| *p += q), x + y);
    ceq("sub_assign", f(|p, q| *p -= q), x - y);
    ceq("mul_assign", f(|p, q| *p *= q), x * y);
    ceq("zero", Complex::zero(), c(S::zero(), S::zero()));
    ceq("one", Complex::one(), c(S::one(), S::zero()));
    ceq("i", Complex::i(), c(S::zero(), S::one()));
    ceq("i*i", Complex::<S>::i() * Complex::i(), -Complex::one());
    S::prove_iff("is_zero", x.is_zero(), all(vec![eq(a[0], S::zero()), eq(a[1], S::zero())]));
}
/// Componentwise operations, scalar operands and assigning forms, bit for bit.
fn complex_parts<S: Sc>() {
    let (a, b, s) = (arr::<S, 2>("a"), arr::<S, 2>("b"), S::var("s"));
    let (x, y) = (Complex::from_array(a), Complex::from_array(b));
    ceq("add", x + y, c(a[0] + b[0], a[1] + b[1]));
    ceq("sub", x - y, c(a[0] - b[0], a[1] - b[1]));
    ceq("neg", -x, c(-a[0], -a[1]));
    ceq("conj", x.conj(), c(a[0], -a[1]));
    ceq("mul scalar", x * s, c(a[0] * s, a[1] * s));
    ceq("div scalar", x / s, c(a[0] / s, a[1] / s));
    let f = |g: &dyn Fn(&mut Complex<S>)| {
        let mut z = x;
        g(&mut z);
        z
    };
    ceq("add_assign", f(&|p| *p += y), x + y);
    ceq("sub_assign", f(&|p| *p -= y), x - y);
    ceq("mul_assign", f(&|p| *p *= y), x * y);
    ceq("div_assign", f(&|p| *p /= y), x / y);
    ceq("add_assign scalar", f(&|p| *p += s), x + s);
    ceq("sub_assign scalar", f(&|p| *p -= s), x - s);
    ceq("mul_assign scalar", f(&|p| *p *= s), x * s);
    ceq("div_assign scalar", f(&|p| *p /= s), x / s);
}
fn quat_parts<S: Sc>() {
    let (a, b, s) = (arr::<S, 4>("a"), arr::<S, 4>("b"), S::var("s"));
    let (x, y) = (Quaternion::from_array(a), Quaternion::from_array(b));
    let m = |g: &dyn Fn(usize) -> S| q(g(0), g(1), g(2), g(3));
    qeq("add", x + y, m(&|i| a[i] + b[i]));
    qeq("sub", x - y, m(&|i| a[i] - b[i]));
    qeq("neg", -x, m(&|i| -a[i]));
    qeq("conj", x.conj(), m(&|i| if i == 0 { a[i] } else { -a[i] }));
    qeq("mul scalar", x * s, m(&|i| a[i] * s));
    qeq("div scalar", x / s, m(&|i| a[i] / s));
    let f = |g: &dyn Fn(&mut Quaternion<S>)| {
        let mut z = x;
        g(&mut z);
        z
    };
    qeq("add_assign", f(&|p| *p += y), x + y);
    qeq("sub_assign", f(&|p| *p -= y), x - y);
    qeq("mul_assign", f(&|p| *p *= y), x * y);
    qeq("div_assign", f(&|p| *p /= y), x / y);
    qeq("add_assign scalar", f(&|p| *p += s), x + s);
    qeq("sub_assign scalar", f(&|p| *p -= s), x - s);
    qeq("mul_assign scalar", f(&|p| *p *= s), x * s);
    qeq("div_assign scalar", f(&|p| *p /= s), x / s);
}
fn complex_algebra<S: Sc>() {
    let (x, y, z) = (comp::<S>("x"), comp::<S>("y"), comp::<S>("z"));
    ceq("add commutes", x + y, y + x);
    ceq("add associates", (x + y) + z, x + (y + z));
    ceq("mul commutes", x * y, y * x);
    ceq("mul associates", (x * y) * z, x * (y * z));
    ceq("distributes", x * (y + z), x * y + x * z);
    ceq("distributes on the right", (x + y) * z, x * z + y * z);
    ceq("zero", x + Complex::zero(), x);
    ceq("one", x * Complex::one(), x);
    ceq("one on the left", Complex::<S>::one() * x, x);
    ceq("neg", x + (-x), Complex::zero());
    ceq("sub", x - y, x + (-y));
    ceq("conj add", (x + y).conj(), x.conj() + y.conj());
    ceq("conj mul", (x * y).conj(), x.conj() * y.conj());
    ceq("conj conj", x.conj().conj(), x);
    ceq("z conj z", x * x.conj(), c(x.norm_sqr(), S::zero()));
    S::prove_eq("norm_sqr multiplicative", (x * y).norm_sqr(), x.norm_sqr() * y.norm_sqr());
    S::prove("norm_sqr positive", le(S::zero(), x.norm_sqr()));
}
fn complex_division<S: Sc>() {
    let (x, y) = (comp::<S>("x"), comp::<S>("y"));
    nz_c(y);
    ceq("a/b*b", x / y * y, x);
    ceq("b*(a/b)", y * (x / y), x);
    ceq("inv on the right", y * y.inv(), Complex::one());
    ceq("inv on the left", y.inv() * y, Complex::one());
    ceq("Inv", Inv::inv(y), y.inv());
    ceq("y/y", y / y, Complex::one());
    let mut z = x;
    z /= y;
    ceq("div_assign", z, x / y);
    ceq("inv inv", y.inv().inv(), y);
}
fn complex_conversions<S: Sc>() {
    let a = arr::<S, 2>("a");
    let z = Complex::new(a[0], a[1]);
    let same = |l: &str, w: Complex<S>| {
        S::prove_eq(&format!("{} re", l), w.re(), a[0]);
        S::prove_eq(&format!("{} im", l), w.im(), a[1]);
    };
    same("new", z);
    same("from_array", Complex::from_array(a));
    same("from array", Complex::from(a));
    same("from_tuple", Complex::from_tuple((a[0], a[1])));
    same("from tuple", Complex::from((a[0], a[1])));
    same("from_vector", Complex::from_vector(Vector::from(a)));
    same("from vector", Complex::from(Vector::from(a)));
    same("from_num", Complex::from_num(NC { re: a[0], im: a[1] }));
    same("from num", Complex::from(NC { re: a[0], im: a[1] }));
    let pair = |l: &str, p: S, q: S| {
        S::prove_eq(&format!("{} 0", l), p, a[0]);
        S::prove_eq(&format!("{} 1", l), q, a[1]);
    };
    let v = z.into_array();
    pair("into_array", v[0], v[1]);
    let v: [S; 2] = z.into();
    pair("into array", v[0], v[1]);
    let v = z.into_tuple();
    pair("into_tuple", v.0, v.1);
    let v: (S, S) = z.into();
    pair("into tuple", v.0, v.1);
    let v = z.into_vector();
    pair("into_vector", v[0], v[1]);
    let v: Vector<S, 2> = z.into();
    pair("into vector", v[0], v[1]);
    let v = z.into_num();
    pair("into_num", v.re, v.im);
    let v: NC<S> = z.into();
    pair("into num", v.re, v.im);
    pair("accessors", z.re(), z.im());
    pair("references", *z.re_ref(), *z.im_ref());
    let (mut p, mut q) = (z, z);
    let n = S::var("n");
    pair("mut references", *p.re_mut(), *q.im_mut());
    *p.re_mut() = n;
    *q.im_mut() = n;
    ceq("write re", p, c(n, a[1]));
    ceq("write im", q, c(a[0], n));
    let d = Complex::<S>::default();
    S::prove_eq("default re", d.re(), S::default());
    S::prove_eq("default im", d.im(), S::default());
    let w = comp::<S>("w");
    S::prove_iff("==", z == w, all(vec![eq(a[0], w.re()), eq(a[1], w.im())]));
}

fn hamilton<S: Sc>(a: [S; 4], b: [S; 4]) -> Quaternion<S> {
    // index 0..3 = 1,i,j,k ; product table (sign, unit)
    const T: [[(i8, usize); 4]; 4] = [
        [(1, 0), (1, 1), (1, 2), (1, 3)],
        [(1, 1), (-1, 0), (1, 3), (-1, 2)],
        [(1, 2), (-1, 3), (-1, 0), (1, 1)],
        [(1, 3), (1, 2), (-1, 1), (-1, 0)],
    ];
    let mut r = [S::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            let (s, u) = T[i][j];
            let p = a[i] * b[j];
            r[u] = if s > 0 { r[u] + p } else { r[u] - p };
        }
    }
    Quaternion::from_array(r)
}
fn quat_ops<S: Sc>() {
    let (a, b) = (arr::<S, 4>("a"), arr::<S, 4>("b"));
    let (x, y) = (Quaternion::from_array(a), Quaternion::from_array(b));
    let z = |f: fn(S, S) -> S| Quaternion::from_array(core::array::from_fn(|i| f(a[i], b[i])));
    qeq("add", x + y, z(|p, q| p + q));
    qeq("sub", x - y, z(|p, q| p - q));
    qeq("neg", -x, z(|p, _| -p));
    qeq("mul", x * y, hamilton(a, b));
    qeq("conj", x.conj(), q(a[0], -a[1], -a[2], -a[3]));
    qeq("Conj", Conj::conj(x), x.conj());
    S::prove_eq("norm_sqr", x.norm_sqr(), sum(a.map(|v| v * v)));
    let f = |g: fn(&mut Quaternion<S>, Quaternion<S>)| {
        let mut z = x;
        g(&mut z, y);
        z
    };
    qeq("add_assign", f(|p, q| *p += q), x + y);
    qeq("sub_assign", f(|p, q| *p -= q), x - y);
    qeq("mul_assign", f(|p, q| *p *= q), x * y);
    let (o, l) = (S::zero(), S::one());
    qeq("zero", Quaternion::zero(), q(o, o, o, o));
    qeq("one", Quaternion::one(), q(l, o, o, o));
    let (i, j, k) = (Quaternion::<S>::i(), Quaternion::<S>::j(), Quaternion::<S>::k());
    qeq("i", i, q(o, l, o, o));
    qeq("j", j, q(o, o, l, o));
    qeq("k", k, q(o, o, o, l));
    qeq("ij", i * j, k);
    qeq("jk", j * k, i);
    qeq("ki", k * i, j);
    qeq("ji", j * i, -k);
    for u in [i, j, k] {
        qeq("square", u * u, -Quaternion::one());
    }
    S::prove_iff("is_zero", x.is_zero(), all(a.iter().map(|v| eq(*v, o)).collect()));
}
fn quat_algebra<S: Sc>() {
    let (x, y, z) = (quat::<S>("x"), quat::<S>("y"), quat::<S>("z"));
    qeq("add commutes", x + y, y + x);
    qeq("add associates", (x + y) + z, x + (y + z));
    qeq("mul associates", (x * y) * z, x * (y * z));
    qeq("distributes", x * (y + z), x * y + x * z);
    qeq("distributes on the right", (x + y) * z, x * z + y * z);
    qeq("zero", x + Quaternion::zero(), x);
    qeq("one", x * Quaternion::one(), x);
    qeq("one on the left", Quaternion::<S>::one() * x, x);
    qeq("neg", x + (-x), Quaternion::zero());
    qeq("sub", x - y, x + (-y));
    qeq("conj add", (x + y).conj(), x.conj() + y.conj());
    qeq("conj reverses", (x * y).conj(), y.conj() * x.conj());
    qeq("conj conj", x.conj().conj(), x);
    let n = q(x.norm_sqr(), S::zero(), S::zero(), S::zero());
    qeq("q conj q", x * x.conj(), n);
    qeq("conj q q", x.conj() * x, n);
    S::prove_eq("norm_sqr multiplicative", (x * y).norm_sqr(), x.norm_sqr() * y.norm_sqr());
    S::prove("norm_sqr positive", le(S::zero(), x.norm_sqr()));
}
fn quat_division<S: Sc>() {
    let (x, y) = (quat::<S>("x"), quat::<S>("y"));
    nz_q(y);
    qeq("a/b*b", x / y * y, x);
    qeq("(ab)/b", (x * y) / y, x);
    qeq("inv on the right", y * y.inv(), Quaternion::one());
    qeq("inv on the left", y.inv() * y, Quaternion::one());
    qeq("Inv", Inv::inv(y), y.inv());
    let mut z = x;
    z /= y;
    qeq("div_assign", z, x / y);
}
fn quat_division2<S: Sc>() {
    let (x, y) = (quat::<S>("x"), quat::<S>("y"));
    nz_q(y);
    nz_q(x);
    qeq("inv inv", y.inv().inv(), y);
    qeq("inv reverses", (x * y).inv(), y.inv() * x.inv());
}
fn quat_conversions<S: Sc>() {
    let a = arr::<S, 4>("a");
    let z = Quaternion::new(a[0], a[1], a[2], a[3]);
    let same = |l: &str, w: Quaternion<S>| {
        for (n, (p, r)) in [w.w(), w.x(), w.y(), w.z()].iter().zip(a).enumerate() {
            S::prove_eq(&format!("{} {}", l, n), *p, r);
        }
    };
    let v3 = || Vector::from([a[1], a[2], a[3]]);
    let t = (a[0], a[1], a[2], a[3]);
    same("new", z);
    same("from_array", Quaternion::from_array(a));
    same("from array", Quaternion::from(a));
    same("from_tuple", Quaternion::from_tuple(t));
    same("from tuple", Quaternion::from(t));
    same("from_vector", Quaternion::from_vector(Vector::from(a)));
    same("from vector", Quaternion::from(Vector::from(a)));
    same("from_scalar_and_vector3", Quaternion::from_scalar_and_vector3(a[0], v3()));
    same("from scalar and vector3", Quaternion::from((a[0], v3())));
    let is = |l: &str, v: [S; 4]| {
        for i in 0..4 {
            S::prove_eq(&format!("{} {}", l, i), v[i], a[i]);
        }
    };
    is("into_array", z.into_array());
    is("into array", z.into());
    let v = z.into_tuple();
    is("into_tuple", [v.0, v.1, v.2, v.3]);
    let v: (S, S, S, S) = z.into();
    is("into tuple", [v.0, v.1, v.2, v.3]);
    is("into_vector", z.into_vector().into_array());
    let v: Vector<S, 4> = z.into();
    is("into vector", v.into_array());
    let (w, v) = z.into_scalar_and_vector3();
    is("into_scalar_and_vector3", [w, v[0], v[1], v[2]]);
    let (w, v): (S, Vector<S, 3>) = z.into();
    is("into scalar and vector3", [w, v[0], v[1], v[2]]);
    is("accessors", [z.w(), z.x(), z.y(), z.z()]);
    vveq("xyz", z.xyz(), v3());
    is("references", [*z.w_ref(), *z.x_ref(), *z.y_ref(), *z.z_ref()]);
    let n = S::var("n");
    let sets: [fn(&mut Quaternion<S>) -> &mut S; 4] = [|q| q.w_mut(), |q| q.x_mut(), |q| q.y_mut(), |q| q.z_mut()];
    for (i, f) in sets.iter().enumerate() {
        let mut p = z;
        S::prove_eq("mut reference", *f(&mut p), a[i]);
        *f(&mut p) = n;
        let mut e = a;
        e[i] = n;
        qeq(&format!("write {}", i), p, Quaternion::from_array(e));
    }
    let d = Quaternion::<S>::default().into_array();
    for i in 0..4 {
        S::prove_eq("default", d[i], S::default());
    }
    let w = quat::<S>("w");
    let b = w.into_array();
    S::prove_iff("==", z == w, all((0..4).map(|i| eq(a[i], b[i])).collect()));
}

fn ec<S: Sc>(s: S) -> Complex<S> {
    Complex::new(s, S::zero())
}
fn eq_<S: Sc>(s: S) -> Quaternion<S> {
    Quaternion::new(s, S::zero(), S::zero(), S::zero())
}
fn ecq<S: Sc>(z: Complex<S>) -> Quaternion<S> {
    Quaternion::new(z.re(), z.im(), S::zero(), S::zero())
}
fn mixed_complex_scalar<S: Sc>() {
    let (z, s) = (comp::<S>("z"), S::var("s"));
    ceq("z+s", z + s, z + ec(s));
    ceq("z-s", z - s, z - ec(s));
    ceq("z*s", z * s, z * ec(s));
    let (mut a, mut b, mut m) = (z, z, z);
    a += s;
    b -= s;
    m *= s;
    ceq("z+=s", a, z + s);
    ceq("z-=s", b, z - s);
    ceq("z*=s", m, z * s);
    S::assume(ne(s, S::zero()));
    ceq("z/s", z / s, z / ec(s));
    let mut d = z;
    d /= s;
    ceq("z/=s", d, z / s);
}
fn mixed_quat_scalar<S: Sc>() {
    let (z, s) = (quat::<S>("q"), S::var("s"));
    qeq("q+s", z + s, z + eq_(s));
    qeq("q-s", z - s, z - eq_(s));
    qeq("q*s", z * s, z * eq_(s));
    let (mut a, mut b, mut m) = (z, z, z);
    a += s;
    b -= s;
    m *= s;
    qeq("q+=s", a, z + s);
    qeq("q-=s", b, z - s);
    qeq("q*=s", m, z * s);
    S::assume(ne(s, S::zero()));
    qeq("q/s", z / s, z / eq_(s));
    let mut d = z;
    d /= s;
    qeq("q/=s", d, z / s);
}
fn mixed_quat_complex<S: Sc>() {
    let (z, s) = (quat::<S>("q"), comp::<S>("z"));
    qeq("q+z", z + s, z + ecq(s));
    qeq("q-z", z - s, z - ecq(s));
    qeq("q*z", z * s, z * ecq(s));
    qeq("z*q", s * z, ecq(s) * z);
    let (mut a, mut b, mut m) = (z, z, z);
    a += s;
    b -= s;
    m *= s;
    qeq("q+=z", a, z + s);
    qeq("q-=z", b, z - s);
    qeq("q*=z", m, z * s);
    nz_c(s);
    qeq("q/z", z / s, z / ecq(s));
    let mut d = z;
    d /= s;
    qeq("q/=z", d, z / s);
}
fn mixed_complex_over_quat<S: Sc>() {
    let (z, s) = (quat::<S>("q"), comp::<S>("z"));
    nz_q(z);
    qeq("z/q", s / z, ecq(s) / z);
    qeq("z/q*q", s / z * z, ecq(s));
}

fn represent_complex<S: Sc>() {
    let (x, y) = (comp::<S>("x"), comp::<S>("y"));
    let m = x.into_matrix();
    let [a, b] = x.into_array();
    meq("matrix", m, [[a, -b], [b, a]]);
    mmeq("sum", (x + y).into_matrix(), m + y.into_matrix());
    mmeq("product", (x * y).into_matrix(), m.dot(y.into_matrix()));
    mmeq("one", Complex::<S>::one().into_matrix(), Matrix::one());
    mmeq("conjugate", x.conj().into_matrix(), m.transpose());
    S::prove_eq("det", m.det(), x.norm_sqr());
    vveq("acts by left multiplication", m.dot(y.into_vector()), (x * y).into_vector());
}
fn represent_quat<S: Sc>() {
    let (x, y) = (quat::<S>("x"), quat::<S>("y"));
    let m = x.into_matrix();
    mmeq("sum", (x + y).into_matrix(), m + y.into_matrix());
    mmeq("product", (x * y).into_matrix(), m.dot(y.into_matrix()));
    mmeq("one", Quaternion::<S>::one().into_matrix(), Matrix::one());
    mmeq("conjugate", x.conj().into_matrix(), m.transpose());
    S::prove_eq("det", m.det(), x.norm_sqr() * x.norm_sqr());
    vveq("acts by left multiplication", m.dot(y.into_vector()), (x * y).into_vector());
}

pub fn reg(v: &mut Vec<H>) {
    regx!(v, Quick, ["C15", "C17"], complex_parts);
    regx!(v, Quick, ["C16", "C17"], quat_parts);
    reg!(v, Quick, ["C15"], complex_ops);
    reg!(v, Quick, ["C15"], complex_algebra);
    reg!(v, Quick, ["C15"], complex_division);
    reg!(v, Quick, ["C15"], complex_conversions);
    reg!(v, Quick, ["C16"], quat_ops);
    reg!(v, Quick, ["C16"], quat_algebra);
    reg!(v, Quick, ["C16"], quat_division);
    reg!(v, Quick, ["C16"], quat_division2);
    reg!(v, Quick, ["C16"], quat_conversions);
    reg!(v, Quick, ["C17"], mixed_complex_scalar);
    reg!(v, Quick, ["C17"], mixed_quat_scalar);
    reg!(v, Quick, ["C17"], mixed_quat_complex);
    reg!(v, Quick, ["C17"], mixed_complex_over_quat);
    reg!(v, Quick, ["C18"], represent_complex);
    reg!(v, Quick, ["C18"], represent_quat);
}
