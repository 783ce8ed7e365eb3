//! Derivatives (C22) and directions and normals (C23).
use super::c20::{ns, Kind};
use crate::util::*;
use std::ops::*;
use vecmat::complex::Moebius;
use vecmat::transform::*;

/// Dual number a + b*e with e*e = 0: evaluating the real `apply` on it differentiates it.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Dual<S>(S, S);
impl<S: Sc> Add for Dual<S> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual(self.0 + o.0, self.1 + o.1)
    }
}
impl<S: Sc> Sub for Dual<S> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual(self.0 - o.0, self.1 - o.1)
    }
}
impl<S: Sc> Mul for Dual<S> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual(self.0 * o.0, self.0 * o.1 + self.1 * o.0)
    }
}
impl<S: Sc> Div for Dual<S> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        Dual(self.0 / o.0, (self.1 * o.0 - self.0 * o.1) / (o.0 * o.0))
    }
}
impl<S: Sc> Rem for Dual<S> {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("remainder of a dual number")
    }
}
impl<S: Sc> Neg for Dual<S> {
    type Output = Self;
    fn neg(self) -> Self {
        Dual(-self.0, -self.1)
    }
}
impl<S: Sc> Zero for Dual<S> {
    fn zero() -> Self {
        Dual(S::zero(), S::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
}
impl<S: Sc> One for Dual<S> {
    fn one() -> Self {
        Dual(S::one(), S::zero())
    }
}
impl<S: Sc> Num for Dual<S> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<S: Sc> Inv for Dual<S> {
    type Output = Self;
    fn inv(self) -> Self {
        Self::one() / self
    }
}
impl<S: Sc> num_traits::ToPrimitive for Dual<S> {
    fn to_i64(&self) -> Option<i64> {
        None
    }
    fn to_u64(&self) -> Option<u64> {
        None
    }
}
impl<S: Sc> NumCast for Dual<S> {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Self> {
        <S as NumCast>::from(n).map(|x| Dual(x, S::zero()))
    }
}
fn k<S: Sc>(x: S) -> Dual<S> {
    Dual(x, S::zero())
}
fn lift<S: Sc, const N: usize>(x: [S; N], v: [S; N]) -> [Dual<S>; N] {
    core::array::from_fn(|i| Dual(x[i], v[i]))
}
fn kv<S: Sc, const N: usize>(v: Vector<S, N>) -> Vector<Dual<S>, N> {
    v.map(k)
}
/// `deriv` of `t` against the dual part of `apply` of the same transform on dual numbers.
fn against<S: Sc, const N: usize, A, D>(l: &str, t: A, d: D)
where
    A: Transform<Vector<S, N>>,
    D: Transform<Vector<Dual<S>, N>>,
{
    let (x, v) = (arr::<S, N>("x"), arr::<S, N>("v"));
    let e = d.apply(Vector::from(lift(x, v))).into_array();
    veq(l, t.deriv(Vector::from(x), Vector::from(v)), e.map(|p| p.1));
}
fn deriv_shift<S: Sc, const N: usize>() {
    let p = vec::<S, N>("p");
    against("Shift", Shift::from(p), Shift::from(kv(p)));
}
fn deriv_scale<S: Sc, const N: usize>() {
    let m = S::var("m");
    against::<S, N, _, _>("Scale", Scale::from(m), Scale::from(k(m)));
}
fn klin<S: Sc, const N: usize>(m: Matrix<S, N, N>) -> Linear<Dual<S>, N> {
    Linear::from(m.map(k))
}
fn deriv_linear<S: Sc, const N: usize>() {
    let m = mat::<S, N, N>("m");
    against("Linear", Linear::from(m), klin(m));
}
fn deriv_affine<S: Sc, const N: usize>() {
    let (m, p) = (mat::<S, N, N>("m"), vec::<S, N>("p"));
    against("Affine", Affine::new(p.into(), m.into()), Affine::new(kv(p).into(), klin(m)));
    against(
        "Linear of Shift",
        Chain::<Linear<S, N>, Shift<S, N>, Vector<S, N>>::new(m.into(), p.into()),
        Chain::<Linear<Dual<S>, N>, Shift<Dual<S>, N>, Vector<Dual<S>, N>>::new(klin(m), kv(p).into()),
    );
}
fn r2<S: Sc>(z: Complex<S>) -> Rotation2<Dual<S>> {
    Rotation2::from(Complex::from_vector(kv(z.into_vector())))
}
fn r3<S: Sc>(z: Quaternion<S>) -> Rotation3<Dual<S>> {
    Rotation3::from(Quaternion::from_vector(kv(z.into_vector())))
}
fn deriv_rotation2<S: Sc>() {
    let (z, p) = (comp::<S>("z"), vec::<S, 2>("p"));
    against("Rotation2", Rotation2::from(z), r2(z));
    against(
        "Rotation2 of Shift",
        Chain::<Rotation2<S>, Shift<S, 2>, Vector<S, 2>>::new(z.into(), p.into()),
        Chain::<Rotation2<Dual<S>>, Shift<Dual<S>, 2>, Vector<Dual<S>, 2>>::new(r2(z), kv(p).into()),
    );
    against(
        "Shift of Rotation2",
        Chain::<Shift<S, 2>, Rotation2<S>, Vector<S, 2>>::new(p.into(), z.into()),
        Chain::<Shift<Dual<S>, 2>, Rotation2<Dual<S>>, Vector<Dual<S>, 2>>::new(kv(p).into(), r2(z)),
    );
}
fn deriv_rotation3<S: Sc>() {
    let (z, p) = (quat::<S>("z"), vec::<S, 3>("p"));
    against("Rotation3", Rotation3::from(z), r3(z));
    against(
        "Rotation3 of Shift",
        Chain::<Rotation3<S>, Shift<S, 3>, Vector<S, 3>>::new(z.into(), p.into()),
        Chain::<Rotation3<Dual<S>>, Shift<Dual<S>, 3>, Vector<Dual<S>, 3>>::new(r3(z), kv(p).into()),
    );
    against(
        "Shift of Rotation3",
        Chain::<Shift<S, 3>, Rotation3<S>, Vector<S, 3>>::new(p.into(), z.into()),
        Chain::<Shift<Dual<S>, 3>, Rotation3<Dual<S>>, Vector<Dual<S>, 3>>::new(kv(p).into(), r3(z)),
    );
}
fn deriv_scale_shift<S: Sc, const N: usize>() {
    let (m, p) = (S::var("m"), vec::<S, N>("p"));
    against(
        "Scale of Shift",
        Chain::<Scale<S>, Shift<S, N>, Vector<S, N>>::new(m.into(), p.into()),
        Chain::<Scale<Dual<S>>, Shift<Dual<S>, N>, Vector<Dual<S>, N>>::new(k(m).into(), kv(p).into()),
    );
    against(
        "Shift of Scale",
        Chain::<Shift<S, N>, Scale<S>, Vector<S, N>>::new(p.into(), m.into()),
        Chain::<Shift<Dual<S>, N>, Scale<Dual<S>>, Vector<Dual<S>, N>>::new(kv(p).into(), k(m).into()),
    );
}
fn kc<S: Sc>(z: Complex<S>) -> Complex<Dual<S>> {
    Complex::from_vector(kv(z.into_vector()))
}
fn moeb<S: Sc>() -> (Moebius<Complex<S>>, Moebius<Complex<Dual<S>>>) {
    let m = <Moebius<Complex<S>> as Kind<S>>::make("m");
    (m, Moebius::new(kc(m.a()), kc(m.b()), kc(m.c()), kc(m.d())))
}
fn deriv_moebius_complex<S: Sc>() {
    let (m, d) = moeb::<S>();
    let (x, v) = (arr::<S, 2>("x"), arr::<S, 2>("v"));
    let (p, q) = (Complex::from(x), Complex::from(v));
    m.defined(p);
    let e = Transform::apply(&d, Complex::from(lift(x, v))).into_array();
    let r = <Moebius<Complex<S>> as Transform<Complex<S>>>::deriv(&m, p, q);
    ceq("deriv", r, Complex::from(e.map(|p| p.1)));
    ceq("derivative", m.deriv(p) * q, r);
    // (a d - b c) / (c p + d)^2
    let t = m.c() * p + m.d();
    ceq("closed form", m.deriv(p) * (t * t), m.a() * m.d() - m.b() * m.c());
}
fn deriv_moebius_quaternion<S: Sc>() {
    let (m, d) = moeb::<S>();
    let (x, v) = (arr::<S, 4>("x"), arr::<S, 4>("v"));
    let (p, q) = (Quaternion::from(x), Quaternion::from(v));
    S::assume(ne((m.c() * p + m.d()).norm_sqr(), S::zero()));
    let e = Transform::apply(&d, Quaternion::from(lift(x, v))).into_array();
    let r = <Moebius<Complex<S>> as Transform<Quaternion<S>>>::deriv(&m, p, q);
    qeq("deriv", r, Quaternion::from(e.map(|p| p.1)));
    qeq("deriv_dir", m.deriv_dir(p, q), r);
}
fn deriv_linear_in_dir<S: Sc>() {
    let (m, _) = moeb::<S>();
    let (p, u, v, s) = (quat::<S>("x"), quat::<S>("u"), quat::<S>("v"), S::var("s"));
    S::assume(ne((m.c() * p + m.d()).norm_sqr(), S::zero()));
    qeq("linear", m.deriv_dir(p, u * s + v), m.deriv_dir(p, u) * s + m.deriv_dir(p, v));
    let (p, u, v) = (comp::<S>("y"), comp::<S>("c"), comp::<S>("d"));
    m.defined(p);
    let d = |w| <Moebius<Complex<S>> as Transform<Complex<S>>>::deriv(&m, p, w);
    ceq("linear on complex points", d(u * s + v), d(u) * s + d(v));
}
// ---------------------------------------------------------------- directions and normals

fn dotp<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> S {
    sum((0..N).map(|i| a[i] * b[i]))
}
/// Unit vector.
fn unit<S: Sc, const N: usize>(n: &str) -> [S; N] {
    let d = arr::<S, N>(n);
    S::assume(eq(ns(d), S::one()));
    d
}
/// `r` is `d` scaled to length one (with a positive factor).
fn is_normalised<S: Sc, const N: usize>(l: &str, r: [S; N], d: [S; N]) {
    let len = ns(d).sqrt();
    for i in 0..N {
        S::prove_eq(&format!("{} direction [{}]", l, i), r[i] * len, d[i]);
    }
}
fn dir_of<S: Sc, const N: usize, A: Directional<Vector<S, N>> + Copy>(l: &str, t: A, p: [S; N], d: [S; N]) {
    let e = t.deriv(p.into(), d.into()).into_array();
    S::assume(ne(ns(e), S::zero()));
    let r = t.apply_dir(p.into(), d.into()).into_array();
    is_normalised(l, r, e);
}
/// Tangents stay tangent: `e` is any vector with dot product `w` with the normal `n`; the image
/// of the normal has dot product `w` times a positive factor with the image of `e`.
fn normal_of<S: Sc, const N: usize, A: Directional<Vector<S, N>> + Copy>(l: &str, t: A, p: [S; N]) {
    let (n, e) = (unit::<S, N>("n"), arr::<S, N>("e"));
    let w = dotp(n, e);
    S::assume(eq(w, S::zero()));
    let r = t.apply_normal(p.into(), n.into()).into_array();
    let f = t.deriv(p.into(), e.into()).into_array();
    S::prove_eq(&format!("{} perpendicular", l), dotp(r, f), S::zero());
}
fn normal_unit<S: Sc, const N: usize, A: Directional<Vector<S, N>> + Copy>(l: &str, t: A, p: [S; N]) {
    let n = unit::<S, N>("n");
    let r = t.apply_normal(p.into(), n.into()).into_array();
    S::prove_eq(&format!("{} unit length", l), ns(r), S::one());
}
fn dir_shift<S: Sc, const N: usize>() {
    let (t, p, d) = (Shift::from(vec::<S, N>("t")), arr("p"), unit::<S, N>("d"));
    dir_of("Shift", t, p, d);
    normal_of("Shift", t, p);
    normal_unit("Shift", t, p);
}
fn dir_scale<S: Sc, const N: usize>() {
    let (m, p, d) = (S::var("m"), arr("p"), unit::<S, N>("d"));
    S::assume(lt(S::zero(), m));
    let t = Scale::from(m);
    let e = t.deriv(p.into(), d.into()).into_array();
    let r = t.apply_dir(p.into(), d.into()).into_array();
    for i in 0..N {
        S::prove_eq("Scale direction", r[i] * m, e[i]);
    }
    S::prove_eq("Scale unit", ns(r), S::one());
    let (n, e) = (unit::<S, N>("n"), arr::<S, N>("e"));
    let q = t.apply_normal(p.into(), n.into()).into_array();
    let f = t.deriv(p.into(), e.into()).into_array();
    S::prove_eq("Scale normal", dotp(q, f), dotp(n, e) * m);
    S::prove_eq("Scale normal unit", ns(q), S::one());
}
fn dir_linear<S: Sc, const N: usize>() {
    let (m, p, d) = (mat::<S, N, N>("m"), arr("p"), arr::<S, N>("d"));
    dir_of("Linear", Linear::from(m), p, d);
}
fn normal_linear<S: Sc, const N: usize>() {
    let (m, p) = (mat::<S, N, N>("m"), arr::<S, N>("p"));
    let det = m.det();
    S::assume(ne(det, S::zero()));
    let t = Linear::from(m);
    let nt = t.normal_transform().into_matrix();
    mmeq("normal_transform", nt.transpose().dot(m), Matrix::one());
    let (n, e) = (arr::<S, N>("n"), arr::<S, N>("e"));
    let q = nt.dot(Vector::from(n)).into_array();
    S::assume(ne(ns(q), S::zero()));
    let r = t.apply_normal(p.into(), n.into()).into_array();
    is_normalised("apply_normal", r, q);
    let f = t.deriv(p.into(), e.into()).into_array();
    // (r . A e) |A^-T n| = n . e : perpendicular stays perpendicular, and the side is kept
    S::prove_eq("keeps tangents", dotp(r, f) * ns(q).sqrt(), dotp(n, e));
}
fn dir_rotation2<S: Sc>() {
    let (z, p, d) = (comp::<S>("z"), arr("p"), arr::<S, 2>("d"));
    S::assume(eq(z.norm_sqr(), S::one()));
    let t = Rotation2::from(z);
    vveq("Rotation2", t.apply_dir(p.into(), d.into()), t.deriv(p.into(), d.into()));
    let (n, e) = (arr::<S, 2>("n"), arr::<S, 2>("e"));
    let (q, f) = (t.apply_normal(p.into(), n.into()).into_array(), t.deriv(p.into(), e.into()).into_array());
    S::prove_eq("Rotation2 normal", dotp(q, f), dotp(n, e));
    S::prove_eq("Rotation2 length", ns(q), ns(n));
}
fn dir_rotation3<S: Sc>() {
    let (z, p, d) = (quat::<S>("z"), arr("p"), arr::<S, 3>("d"));
    S::assume(eq(z.norm_sqr(), S::one()));
    let t = Rotation3::from(z);
    vveq("Rotation3", t.apply_dir(p.into(), d.into()), t.deriv(p.into(), d.into()));
    let n = arr::<S, 3>("n");
    vveq("Rotation3 normal", t.apply_normal(p.into(), n.into()), t.apply_dir(p.into(), n.into()));
}
fn dir_rotation3_keeps<S: Sc>() {
    let (z, d, e) = (quat::<S>("z"), arr::<S, 3>("d"), arr::<S, 3>("e"));
    let t = Rotation3::from(z);
    let p = [S::zero(); 3];
    let (a, b) = (t.apply_dir(p.into(), d.into()).into_array(), t.apply_normal(p.into(), e.into()).into_array());
    let n = z.norm_sqr();
    S::prove_eq("angles", dotp(a, b), dotp(d, e) * (n * n));
}
fn dir_chain<S: Sc, const N: usize>() {
    let (m, s, p, d) = (mat::<S, N, N>("m"), vec::<S, N>("s"), arr::<S, N>("p"), arr::<S, N>("d"));
    S::assume(ne(m.det(), S::zero()));
    let (l, s) = (Linear::from(m), Shift::from(s));
    let (x, v) = (Vector::from(p), Vector::from(d));
    S::assume(ne(ns(l.deriv(x, v).into_array()), S::zero()));
    S::assume(ne(ns(l.normal_transform().apply(v).into_array()), S::zero()));
    let c = Affine::new(s, l);
    vveq("Affine dir", c.apply_dir(x, v), s.apply_dir(l.apply(x), l.apply_dir(x, v)));
    vveq("Affine normal", c.apply_normal(x, v), s.apply_normal(l.apply(x), l.apply_normal(x, v)));
    let c = Chain::<Linear<S, N>, Shift<S, N>, Vector<S, N>>::new(l, s);
    vveq("Linear of Shift dir", c.apply_dir(x, v), l.apply_dir(s.apply(x), s.apply_dir(x, v)));
    vveq("Linear of Shift normal", c.apply_normal(x, v), l.apply_normal(s.apply(x), s.apply_normal(x, v)));
}
/// A transform whose direction transport depends on the point, to pin the point each half sees.
#[derive(Clone, Copy)]
struct Bend<S>(S);
impl<S: Sc> Transform<Vector<S, 1>> for Bend<S> {
    fn identity() -> Self {
        Bend(S::zero())
    }
    fn inv(self) -> Self {
        self
    }
    fn apply(&self, p: Vector<S, 1>) -> Vector<S, 1> {
        Vector::from([S::uf("bend", &[self.0, p[0]])])
    }
    fn deriv(&self, p: Vector<S, 1>, d: Vector<S, 1>) -> Vector<S, 1> {
        Vector::from([S::uf("bend_deriv", &[self.0, p[0], d[0]])])
    }
    fn chain(self, o: Self) -> Self {
        Bend(S::uf("bend_chain", &[self.0, o.0]))
    }
}
impl<S: Sc> Directional<Vector<S, 1>> for Bend<S> {
    fn apply_dir(&self, p: Vector<S, 1>, d: Vector<S, 1>) -> Vector<S, 1> {
        Vector::from([S::uf("bend_dir", &[self.0, p[0], d[0]])])
    }
    fn apply_normal(&self, p: Vector<S, 1>, d: Vector<S, 1>) -> Vector<S, 1> {
        Vector::from([S::uf("bend_normal", &[self.0, p[0], d[0]])])
    }
}
impl<S: Sc> Reorder<Bend<S>, Vector<S, 1>> for Bend<S> {
    fn reorder(self, o: Self) -> (Self, Self) {
        (Bend(S::uf("bend_ro", &[self.0, o.0])), Bend(S::uf("bend_ri", &[self.0, o.0])))
    }
}
/// Chain over transforms about which nothing is known (free function symbols).
fn abstract_chain<S: Sc>() {
    type V<S> = Vector<S, 1>;
    let (a, b, p, d) = (Bend(S::var("a")), Bend(S::var("b")), vec::<S, 1>("p"), vec::<S, 1>("d"));
    let c = Chain::<Bend<S>, Bend<S>, V<S>>::new(a, b);
    vveq("apply", c.apply(p), a.apply(b.apply(p)));
    vveq("deriv", c.deriv(p, d), a.deriv(b.apply(p), b.deriv(p, d)));
    vveq("apply_dir", c.apply_dir(p, d), a.apply_dir(b.apply(p), b.apply_dir(p, d)));
    vveq("apply_normal", c.apply_normal(p, d), a.apply_normal(b.apply(p), b.apply_normal(p, d)));
    S::prove_eq("outer", c.outer().0, a.0);
    S::prove_eq("inner", c.inner().0, b.0);
}
fn dir_moebius_complex<S: Sc>() {
    type M<S> = Moebius<Complex<S>>;
    let m = <M<S> as Kind<S>>::make("m");
    let (p, d) = (comp::<S>("p"), comp::<S>("d"));
    m.defined(p);
    let e = <M<S> as Transform<Complex<S>>>::deriv(&m, p, d);
    S::assume(ne(e.norm_sqr(), S::zero()));
    let r = <M<S> as Directional<Complex<S>>>::apply_dir(&m, p, d);
    is_normalised("complex", r.into_array(), e.into_array());
    ceq("normal", <M<S> as Directional<Complex<S>>>::apply_normal(&m, p, d), r);
}
fn dir_moebius_quaternion<S: Sc>() {
    type M<S> = Moebius<Complex<S>>;
    let m = <M<S> as Kind<S>>::make("m");
    let (p, d) = (quat::<S>("p"), quat::<S>("d"));
    S::assume(ne((m.c() * p + m.d()).norm_sqr(), S::zero()));
    let e = <M<S> as Transform<Quaternion<S>>>::deriv(&m, p, d);
    S::assume(ne(e.norm_sqr(), S::zero()));
    let r = <M<S> as Directional<Quaternion<S>>>::apply_dir(&m, p, d);
    is_normalised("quaternion", r.into_array(), e.into_array());
    qeq("normal", <M<S> as Directional<Quaternion<S>>>::apply_normal(&m, p, d), r);
}
/// Complex Moebius maps are conformal: deriv multiplies inner products by a factor that does
/// not depend on the directions, so transporting a normal like a direction is right.
fn moebius_conformal<S: Sc>() {
    let (m, _) = moeb::<S>();
    let (p, u, v) = (comp::<S>("p"), comp::<S>("u"), comp::<S>("v"));
    m.defined(p);
    let d = |w| <Moebius<Complex<S>> as Transform<Complex<S>>>::deriv(&m, p, w);
    S::prove_eq("angles", d(u).dot(d(v)), u.dot(v) * m.deriv(p).norm_sqr());
}
/// The same for quaternion points: |det|^2 / |c p + d|^4 is the factor.
fn moebius_conformal_quaternion<S: Sc>() {
    let (m, _) = moeb::<S>();
    let (p, u, v) = (quat::<S>("p"), quat::<S>("u"), quat::<S>("v"));
    let n = (m.c() * p + m.d()).norm_sqr();
    S::assume(ne(n, S::zero()));
    let det = m.a() * m.d() - m.b() * m.c();
    S::prove_eq("angles", m.deriv_dir(p, u).dot(m.deriv_dir(p, v)) * (n * n), u.dot(v) * det.norm_sqr());
}

pub fn reg(v: &mut Vec<H>) {
    macro_rules! one { ($t:expr, $p:literal, $($f:ident)*) => { $( reg!(v, $t, [$p], $f); )* } }
    macro_rules! dims { ($t:expr, $p:literal, $d:tt, $($f:ident)*) => { $( reg1!(v, $t, [$p], $f, $d); )* } }
    dims!(Quick, "C22", [1 2 3 4 5 6 8], deriv_shift deriv_scale deriv_linear deriv_affine deriv_scale_shift);
    one!(Quick, "C22", deriv_rotation2 deriv_rotation3 deriv_moebius_complex deriv_moebius_quaternion deriv_linear_in_dir);
    reg!(v, Quick, ["C22", "C23", "C21"], abstract_chain);
    dims!(Quick, "C23", [1 2 3 4 5 6 8], dir_shift dir_scale dir_linear);
    dims!(Quick, "C23", [1 2 3], normal_linear dir_chain);
    one!(Quick, "C23", dir_rotation2 dir_rotation3 dir_rotation3_keeps dir_moebius_complex dir_moebius_quaternion moebius_conformal);
    dims!(Quick, "C23", [4 5 6], normal_linear dir_chain);
    dims!(Thorough, "C23", [7], normal_linear dir_chain);
    reg!(v, Quick, ["C23"], moebius_conformal_quaternion);
}
