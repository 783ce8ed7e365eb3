//! Rotations (C24), look_at (C25), Moebius maps (C26), normalisation (C27), approximate equality (C28).
use super::c20::ns;
use crate::util::*;
use vecmat::complex::Moebius;
use vecmat::transform::*;

fn v3<S: Sc>(n: &str) -> Vector<S, 3> {
    vec(n)
}
fn cross<S: Sc>(a: [S; 3], b: [S; 3]) -> [S; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> S {
    sum((0..N).map(|i| a[i] * b[i]))
}
fn unit<S: Sc, const N: usize>(n: &str) -> [S; N] {
    let a = arr::<S, N>(n);
    S::assume(eq(ns(a), S::one()));
    a
}

// ---------------------------------------------------------------- rotations

fn rotation2_new<S: Sc>() {
    let t = S::var("t");
    let r = Rotation2::new(t);
    let (c, s) = (t.cos(), t.sin());
    veq("image of x", r.apply(Vector::from([S::one(), S::zero()])), [c, s]);
    let p = arr::<S, 2>("p");
    veq("apply", r.apply(Vector::from(p)), [c * p[0] - s * p[1], s * p[0] + c * p[1]]);
    ceq("complex", r.into_complex(), Complex::new(c, s));
    S::prove_eq("unit", r.into_complex().norm_sqr(), S::one());
    ceq("inv negates the angle", r.inv().into_complex(), Rotation2::new(-t).into_complex());
    let u = S::var("u");
    ceq("angles add", r.chain(Rotation2::new(u)).into_complex(), Rotation2::new(t + u).into_complex());
    ceq("half turn", Rotation2::new(S::PI()).into_complex(), -Complex::one());
}
fn rotation2_angle<S: Sc>() {
    let z = comp::<S>("z");
    S::assume(eq(z.norm_sqr(), S::one()));
    let r = Rotation2::from(z);
    let a = r.angle();
    S::prove_eq("angle", a, z.im().atan2(z.re()));
    ceq("new(angle)", Rotation2::new(a).into_complex(), z);
}
fn rotation2_isometry<S: Sc>() {
    let (z, p, q) = (comp::<S>("z"), arr::<S, 2>("p"), arr::<S, 2>("q"));
    let r = Rotation2::from(z);
    let (a, b) = (r.apply(p.into()).into_array(), r.apply(q.into()).into_array());
    S::prove_eq("dot", dot(a, b), dot(p, q) * z.norm_sqr());
    S::prove_eq("length", ns(a), ns(p) * z.norm_sqr());
    S::prove_eq("orientation", a[0] * b[1] - a[1] * b[0], (p[0] * q[1] - p[1] * q[0]) * z.norm_sqr());
    let m = r.to_linear();
    vveq("to_linear", m.apply(p.into()), r.apply(p.into()));
    let m = m.into_matrix();
    mmeq("orthogonal", m.dot(m.transpose()), Matrix::one() * z.norm_sqr());
    S::prove_eq("det", m.det(), z.norm_sqr());
    ceq("conversions", Complex::from(Rotation2::from_complex(z)), z);
}
fn rotation3_new<S: Sc>() {
    let (u, t, p) = (unit::<S, 3>("u"), S::var("t"), arr::<S, 3>("p"));
    let r = Rotation3::new(Vector::from(u), t);
    let (c, s) = (t.cos(), t.sin());
    // Rodrigues
    let (x, d) = (cross(u, p), dot(u, p));
    let e = core::array::from_fn(|i| p[i] * c + x[i] * s + u[i] * (d * (S::one() - c)));
    veq("Rodrigues", r.apply(Vector::from(p)), e);
    veq("axis fixed", r.apply(Vector::from(u)), u);
    S::prove_eq("unit", ns(r.into_quaternion().into_array()), S::one());
    let h = t / S::k(2);
    qeq("quaternion", r.into_quaternion(), Quaternion::new(h.cos(), u[0] * h.sin(), u[1] * h.sin(), u[2] * h.sin()));
}
fn rotation3_group<S: Sc>() {
    let (u, t, w) = (unit::<S, 3>("u"), S::var("t"), S::var("w"));
    let n = |a: S| Rotation3::new(Vector::from(u), a);
    qeq("inv negates the angle", n(t).inv().into_quaternion(), n(-t).into_quaternion());
    qeq("angles add", n(t).chain(n(w)).into_quaternion(), n(t + w).into_quaternion());
    qeq("zero angle", n(S::zero()).into_quaternion(), Quaternion::one());
}
fn rotation3_angle<S: Sc>() {
    // any unit quaternion but the identity and its negative
    let q = quat::<S>("q");
    S::assume(eq(q.norm_sqr(), S::one()));
    let [w, x, y, z] = q.into_array();
    S::assume(ne(x * x + y * y + z * z, S::zero()));
    let r = Rotation3::from(q);
    let (a, u) = (r.angle(), r.axis().into_array());
    S::prove_eq("axis unit", ns(u), S::one());
    let h = a / S::k(2);
    S::prove_eq("cos half", h.cos(), w);
    let s = (x * x + y * y + z * z).sqrt();
    S::prove_eq("sin half", h.sin(), s);
    S::prove("half angle positive", lt(S::zero(), a));
    for (i, (k, v)) in [x, y, z].iter().zip(u).enumerate() {
        S::prove_eq(&format!("axis {}", i), v * s, *k);
    }
}
fn rotation3_rebuild<S: Sc>() {
    let q = quat::<S>("q");
    S::assume(eq(q.norm_sqr(), S::one()));
    let [_, x, y, z] = q.into_array();
    S::assume(ne(x * x + y * y + z * z, S::zero()));
    let r = Rotation3::from(q);
    qeq("new(axis, angle)", Rotation3::new(r.axis(), r.angle()).into_quaternion(), q);
}
fn rotation3_isometry<S: Sc>() {
    let (q, a, b) = (quat::<S>("q"), arr::<S, 3>("a"), arr::<S, 3>("b"));
    let r = Rotation3::from(q);
    let n = q.norm_sqr();
    let (ra, rb) = (r.apply(a.into()).into_array(), r.apply(b.into()).into_array());
    S::prove_eq("dot", dot(ra, rb), dot(a, b) * (n * n));
    let rx = r.apply(cross(a, b).into()).into_array();
    let xr = cross(ra, rb);
    for i in 0..3 {
        S::prove_eq("cross", xr[i], rx[i] * n);
    }
    qeq("conversions", Quaternion::from(Rotation3::from_quaternion(q)), q);
}
fn rotation3_linear<S: Sc>() {
    let (q, p) = (quat::<S>("q"), v3::<S>("p"));
    S::assume(eq(ns(q.into_array()), S::one()));
    let r = Rotation3::from(q);
    vveq("to_linear", r.to_linear().apply(p), r.apply(p));
    let m = r.to_linear().into_matrix();
    mmeq("orthogonal", m.dot(m.transpose()), Matrix::one());
    S::prove_eq("det", m.det(), S::one());
}

// ---------------------------------------------------------------- look_at

fn is_rotation<S: Sc>(m: Matrix<S, 3, 3>) {
    mmeq("orthogonal", m.dot(m.transpose()), Matrix::one());
}
fn minus_z<S: Sc>() -> Vector<S, 3> {
    Vector::from([S::zero(), S::zero(), -S::one()])
}
fn linear_look_at<S: Sc>() {
    let (d, up) = (unit::<S, 3>("d"), arr::<S, 3>("u"));
    S::assume(lt(S::zero(), ns(cross(d, up))));
    let l = Linear::look_at(d.into(), up.into());
    veq("view axis", l.apply(minus_z()), d);
    let x = l.apply([S::one(), S::zero(), S::zero()].into()).into_array();
    let y = l.apply([S::zero(), S::one(), S::zero()].into()).into_array();
    S::prove_eq("x unit", ns(x), S::one());
    S::prove_eq("x perpendicular to dir", dot(x, d), S::zero());
    S::prove_eq("x perpendicular to up", dot(x, up), S::zero());
    S::prove_eq("y perpendicular to dir", dot(y, d), S::zero());
    S::prove_eq("y perpendicular to x", dot(y, x), S::zero());
    S::prove_eq("y unit", ns(y), S::one());
    let w = dot(up, d);
    let n = ns(cross(d, up)).sqrt();
    // y is up without its part along dir, normalised: same plane, same side
    for i in 0..3 {
        S::prove_eq("y is up's side", y[i] * n, up[i] - d[i] * w);
    }
    let z = cross(x, y);
    for i in 0..3 {
        S::prove_eq("right-handed", z[i], -d[i]);
    }
}
fn linear_look_at_any<S: Sc>() {
    let d = unit::<S, 3>("d");
    let l = Linear::look_at_any(d.into());
    veq("view axis", l.apply(minus_z()), d);
    let x = l.apply([S::one(), S::zero(), S::zero()].into()).into_array();
    let y = l.apply([S::zero(), S::one(), S::zero()].into()).into_array();
    S::prove_eq("x unit", ns(x), S::one());
    S::prove_eq("x perpendicular to dir", dot(x, d), S::zero());
    S::prove_eq("y perpendicular to dir", dot(y, d), S::zero());
    S::prove_eq("y perpendicular to x", dot(y, x), S::zero());
    S::prove_eq("y unit", ns(y), S::one());
    let z = cross(x, y);
    for i in 0..3 {
        S::prove_eq("right-handed", z[i], -d[i]);
    }
}
fn rotation_look_at_any<S: Sc>() {
    let d = unit::<S, 3>("d");
    let r = Rotation3::look_at_any(d.into());
    S::prove_eq("unit quaternion", ns(r.into_quaternion().into_array()), S::one());
    veq("view axis", r.apply(minus_z()), d);
}
/// Directions along the coordinate axes and on the internal case boundaries.
fn look_at_boundaries<S: Sc>() {
    let k = choose::<S>("case", 10);
    let (o, l, h) = (S::zero(), S::one(), S::one() / S::k(2));
    let q = (S::one() - h * h).sqrt();
    let d = match k {
        0 => [l, o, o],
        1 => [-l, o, o],
        2 => [o, l, o],
        3 => [o, -l, o],
        4 => [o, o, l],
        5 => [o, o, -l],
        6 => [q, o, h],
        7 => [o, q, -h],
        8 => [o, q, h],
        _ => [-q, o, -h],
    };
    let m = Linear::look_at_any(d.into());
    veq("linear view axis", m.apply(minus_z()), d);
    is_rotation(m.into_matrix());
    S::prove_eq("det", m.into_matrix().det(), S::one());
    let r = Rotation3::look_at_any(d.into());
    veq("rotation view axis", r.apply(minus_z()), d);
    S::prove_eq("rotation unit", ns(r.into_quaternion().into_array()), S::one());
}
fn look_at_equator<S: Sc>() {
    // the boundary of the hemisphere split: z = 0
    let (x, y) = (S::var("x"), S::var("y"));
    S::assume(eq(x * x + y * y, S::one()));
    let d = [x, y, S::zero()];
    let r = Rotation3::look_at_any(d.into());
    veq("rotation view axis", r.apply(minus_z()), d);
    veq("linear view axis", Linear::look_at_any(d.into()).apply(minus_z()), d);
}

// ---------------------------------------------------------------- Moebius

fn moebius_access<S: Sc>() {
    let a = arr::<S, 4>("m");
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    let is = |l: &str, m: Moebius<S>| {
        for (i, x) in [m.a(), m.b(), m.c(), m.d()].iter().enumerate() {
            S::prove_eq(&format!("{} {}", l, i), *x, a[i]);
        }
    };
    let rows = [[a[0], a[1]], [a[2], a[3]]];
    is("new", m);
    is("from_matrix", Moebius::from_matrix(Matrix::from(rows)));
    is("from matrix", Moebius::from(Matrix::from(rows)));
    is("from_array", Moebius::from_array(rows));
    is("from array", Moebius::from(rows));
    is("from_tuple", Moebius::from_tuple((a[0], a[1], a[2], a[3])));
    meq("into_matrix", m.into_matrix(), rows);
    meq("into matrix", m.into(), rows);
    meq("as_matrix", *m.as_matrix(), rows);
    meq("as matrix", *<&Matrix<S, 2, 2>>::from(&m), rows);
    meq("into_array", m.into_array().into(), rows);
    let r: [[S; 2]; 2] = m.into();
    meq("into array", r.into(), rows);
    meq("as_array_of_arrays", (*m.as_array_of_arrays()).into(), rows);
    meq("as array", (*<&[[S; 2]; 2]>::from(&m)).into(), rows);
    let t = m.into_tuple();
    is("into_tuple", Moebius::new(t.0, t.1, t.2, t.3));
    is("refs", Moebius::new(*m.a_ref(), *m.b_ref(), *m.c_ref(), *m.d_ref()));
    let n = S::var("n");
    let f: [fn(&mut Moebius<S>) -> &mut S; 4] = [|m| m.a_mut(), |m| m.b_mut(), |m| m.c_mut(), |m| m.d_mut()];
    for i in 0..4 {
        let mut p = m;
        S::prove_eq("mut ref", *f[i](&mut p), a[i]);
        *f[i](&mut p) = n;
        for (j, x) in [p.a(), p.b(), p.c(), p.d()].iter().enumerate() {
            S::prove_eq("write", *x, if i == j { n } else { a[j] });
        }
        let mut p = [m; 4];
        p[0].as_mut_matrix()[(i / 2, i % 2)] = n;
        p[1].as_mut_array_of_arrays()[i / 2][i % 2] = n;
        <&mut Matrix<S, 2, 2>>::from(&mut p[2])[(i / 2, i % 2)] = n;
        <&mut [[S; 2]; 2]>::from(&mut p[3])[i / 2][i % 2] = n;
        for q in p {
            for (j, x) in [q.a(), q.b(), q.c(), q.d()].iter().enumerate() {
                S::prove_eq("write through a view", *x, if i == j { n } else { a[j] });
            }
        }
    }
    let b = arr::<S, 4>("o");
    let o = Moebius::new(b[0], b[1], b[2], b[3]);
    S::prove_iff("==", m == o, all((0..4).map(|i| eq(a[i], b[i])).collect()));
    let i = Moebius::<S>::identity();
    meq("identity", i.into_matrix(), [[S::one(), S::zero()], [S::zero(), S::one()]]);
    S::prove_eq("det", m.det(), a[0] * a[3] - a[1] * a[2]);
}
fn moebius_scalar<S: Sc>() {
    let (a, b, x) = (arr::<S, 4>("a"), arr::<S, 4>("b"), S::var("x"));
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    let n = Moebius::new(b[0], b[1], b[2], b[3]);
    S::assume(ne(a[2] * x + a[3], S::zero()));
    S::prove_eq("apply", m.apply(x) * (a[2] * x + a[3]), a[0] * x + a[1]);
    S::prove_eq("identity", Moebius::<S>::identity().apply(x), x);
    mmeq("chain", m.chain(n).into_matrix(), m.into_matrix().dot(n.into_matrix()));
    S::assume(ne(b[2] * x + b[3], S::zero()));
    let y = n.apply(x);
    S::assume(ne(a[2] * y + a[3], S::zero()));
    let c = m.chain(n);
    S::assume(ne(c.c() * x + c.d(), S::zero()));
    S::prove_eq("composition", c.apply(x), m.apply(y));
    S::prove_eq("det of chain", c.det(), m.det() * n.det());
}
fn moebius_scalar_inv<S: Sc>() {
    let (a, x) = (arr::<S, 4>("a"), S::var("x"));
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    S::assume(ne(a[0] * a[3] - a[1] * a[2], S::zero()));
    mmeq("inv.chain", m.inv().chain(m).into_matrix(), Matrix::one());
    mmeq("chain(inv)", m.chain(m.inv()).into_matrix(), Matrix::one());
    S::assume(ne(a[2] * x + a[3], S::zero()));
    let y = m.apply(x);
    let i = m.inv();
    S::assume(ne(i.c() * y + i.d(), S::zero()));
    S::prove_eq("inv(apply)", i.apply(y), x);
}
fn cm<S: Sc>() -> Moebius<Complex<S>> {
    Moebius::new(comp("a"), comp("b"), comp("c"), comp("d"))
}
fn moebius_complex<S: Sc>() {
    let m = cm::<S>();
    let x = comp::<S>("x");
    let d = m.c() * x + m.d();
    S::assume(ne(d.norm_sqr(), S::zero()));
    ceq("apply", m.apply(x) * d, m.a() * x + m.b());
    ceq("Transform", Transform::apply(&m, x), m.apply(x));
    ceq("det", m.det(), m.a() * m.d() - m.b() * m.c());
    ceq("identity", Moebius::<Complex<S>>::identity().apply(x), x);
}
fn moebius_complex_inv<S: Sc>() {
    let m = cm::<S>();
    let det = m.a() * m.d() - m.b() * m.c();
    S::assume(ne(det.norm_sqr(), S::zero()));
    let i = m.inv();
    for (n, p) in [("inv.chain", i.chain(m)), ("chain(inv)", m.chain(i))] {
        let t = p.into_tuple();
        ceq(n, t.0, Complex::one());
        ceq(n, t.1, Complex::zero());
        ceq(n, t.2, Complex::zero());
        ceq(n, t.3, Complex::one());
    }
    let t = <Moebius<Complex<S>> as Transform<Complex<S>>>::inv(m);
    ceq("Transform inv", t.a(), i.a());
    ceq("Transform inv", t.b(), i.b());
    ceq("Transform inv", t.c(), i.c());
    ceq("Transform inv", t.d(), i.d());
    let t = <Moebius<Complex<S>> as Transform<Quaternion<S>>>::inv(m);
    ceq("Transform inv on quaternions", t.a(), i.a());
    ceq("Transform inv on quaternions", t.b(), i.b());
    ceq("Transform inv on quaternions", t.c(), i.c());
    ceq("Transform inv on quaternions", t.d(), i.d());
}
fn moebius_quaternion<S: Sc>() {
    let m = cm::<S>();
    let x = quat::<S>("x");
    let d = m.c() * x + m.d();
    S::assume(ne(d.norm_sqr(), S::zero()));
    qeq("apply", m.apply(x) * d, m.a() * x + m.b());
    qeq("Transform", Transform::apply(&m, x), m.apply(x));
    qeq("identity", <Moebius<Complex<S>> as Transform<Quaternion<S>>>::identity().apply(x), x);
}
fn moebius_quaternion_chain<S: Sc>() {
    type M<S> = Moebius<Complex<S>>;
    let (m, n) = (cm::<S>(), Moebius::new(comp("e"), comp("f"), comp("g"), comp("h")));
    let c = <M<S> as Transform<Quaternion<S>>>::chain(m, n);
    let k = <M<S> as Transform<Complex<S>>>::chain(m, n);
    let p = [
        [m.a() * n.a() + m.b() * n.c(), m.a() * n.b() + m.b() * n.d()],
        [m.c() * n.a() + m.d() * n.c(), m.c() * n.b() + m.d() * n.d()],
    ];
    for (l, w) in [("chain on quaternions", c), ("chain on complex numbers", k), ("chain", m.chain(n))] {
        ceq(l, w.a(), p[0][0]);
        ceq(l, w.b(), p[0][1]);
        ceq(l, w.c(), p[1][0]);
        ceq(l, w.d(), p[1][1]);
    }
    // composition on quaternion points, with denominators multiplied out:
    // chain numerator = (a u + b v), chain denominator = (c u + d v) for n(x) = u v^-1
    let x = quat::<S>("x");
    let (u, v) = (n.a() * x + n.b(), n.c() * x + n.d());
    qeq("numerator", c.a() * x + c.b(), m.a() * u + m.b() * v);
    qeq("denominator", c.c() * x + c.d(), m.c() * u + m.d() * v);
}

// ---------------------------------------------------------------- normalisation

fn normalised<S: Sc, const N: usize>(l: &str, r: [S; N], x: [S; N]) {
    S::prove_eq(&format!("{} unit", l), ns(r), S::one());
    let len = ns(x).sqrt();
    for i in 0..N {
        S::prove_eq(&format!("{} direction [{}]", l, i), r[i] * len, x[i]);
    }
}
fn normalize_vector<S: Sc, const N: usize>() {
    let x = arr::<S, N>("x");
    S::assume(ne(ns(x), S::zero()));
    let r = Vector::from(x).normalize();
    normalised("normalize", r.into_array(), x);
    normalised("trait", Normalize::normalize(Vector::from(x)).into_array(), x);
}
fn normalize_twice<S: Sc, const N: usize>() {
    let x = arr::<S, N>("x");
    S::assume(eq(ns(x), S::one()));
    // what normalize returns has length one; normalising that changes nothing
    veq("twice", Vector::from(x).normalize(), x);
}
fn normalize_complex<S: Sc>() {
    let x = arr::<S, 2>("x");
    S::assume(ne(ns(x), S::zero()));
    let z = Complex::from(x);
    normalised("normalize", z.normalize().into_array(), x);
    normalised("trait", Normalize::normalize(z).into_array(), x);
}
fn normalize_quaternion<S: Sc>() {
    let x = arr::<S, 4>("x");
    S::assume(ne(ns(x), S::zero()));
    let z = Quaternion::from(x);
    normalised("normalize", z.normalize().into_array(), x);
    normalised("trait", Normalize::normalize(z).into_array(), x);
}
fn normalize_unit<S: Sc>() {
    let (x, y) = (unit::<S, 2>("x"), unit::<S, 4>("y"));
    ceq("complex twice", Complex::from(x).normalize(), x.into());
    qeq("quaternion twice", Quaternion::from(y).normalize(), y.into());
}
/// A normalised Moebius map is the same map.
fn moebius_normalize_same<S: Sc>() {
    let (a, x) = (arr::<S, 4>("a"), S::var("x"));
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    S::assume(ne(a[0] * a[3] - a[1] * a[2], S::zero()));
    S::assume(ne(a[2] * x + a[3], S::zero()));
    let n = m.normalize();
    S::assume(ne(n.c() * x + n.d(), S::zero()));
    S::prove_eq("same map", n.apply(x), m.apply(x));
}
/// On maps whose determinant is one already nothing changes.
fn moebius_normalize_fixed<S: Sc>() {
    let a = arr::<S, 4>("a");
    S::assume(eq(a[0] * a[3] - a[1] * a[2], S::one()));
    let n = Moebius::new(a[0], a[1], a[2], a[3]).normalize();
    mmeq("determinant one", n.into_matrix(), [[a[0], a[1]], [a[2], a[3]]].into());
}
fn moebius_normalize_det<S: Sc>() {
    let a = arr::<S, 4>("a");
    S::assume(ne(a[0] * a[3] - a[1] * a[2], S::zero()));
    let n = Moebius::new(a[0], a[1], a[2], a[3]).normalize();
    S::prove_eq("determinant one", n.det(), S::one());
}
/// What the current code does instead (the known finding): the determinant becomes its inverse.
/// Any other wrong result is still reported.
fn moebius_normalize_known<S: Sc>() {
    let a = arr::<S, 4>("a");
    let d = a[0] * a[3] - a[1] * a[2];
    S::assume(ne(d, S::zero()));
    let n = Moebius::new(a[0], a[1], a[2], a[3]).normalize().det();
    S::prove("determinant one, or the recorded 1/det", any(vec![eq(n, S::one()), eq(n * d, S::one())]));
}

// ---------------------------------------------------------------- approximate equality

fn within<S: Sc>(a: &[S], b: &[S], e: S) -> Cond<S> {
    all(a.iter().zip(b).map(|(x, y)| all(vec![le(*x - *y, e), le(*y - *x, e)])).collect())
}
fn close<S: Sc, A: approx::AbsDiffEq<Epsilon = S>>(f: impl Fn(&str) -> (A, Vec<S>)) {
    use approx::AbsDiffEq;
    let ((a, x), (b, y), e) = (f("a"), f("b"), S::var("e"));
    S::assume(le(S::zero(), e));
    let r = AbsDiffEq::abs_diff_eq(&a, &b, e);
    S::prove_iff("within epsilon", r, within(&x, &y, e));
    S::check("symmetric", AbsDiffEq::abs_diff_eq(&b, &a, e) == r);
    S::check("negated form", AbsDiffEq::abs_diff_ne(&a, &b, e) != r);
}
fn close_laws<S: Sc, A: approx::AbsDiffEq<Epsilon = S>>(f: impl Fn(&str) -> (A, Vec<S>)) {
    use approx::AbsDiffEq;
    let ((a, _), (b, _), e, g) = (f("a"), f("b"), S::var("e"), S::var("g"));
    S::assume(le(S::zero(), e));
    S::check("reflexive", AbsDiffEq::abs_diff_eq(&a, &a, e));
    S::assume(le(e, g));
    if AbsDiffEq::abs_diff_eq(&a, &b, e) {
        S::check("monotone", AbsDiffEq::abs_diff_eq(&a, &b, g));
    }
    S::prove_eq("default epsilon", A::default_epsilon(), <S as AbsDiffEq>::default_epsilon());
}
/// The scalar's own abs_diff_eq of every pair of components, as an arbitrary relation; natively
/// also on infinities and NaN.
fn close_parts<S: Sc, A: approx::AbsDiffEq<Epsilon = S>>(k: usize, mk: impl Fn(&[S]) -> A) {
    use approx::AbsDiffEq;
    let vars = |n: &str| -> Vec<S> { (0..k).map(|i| S::var(&format!("{}{}", n, i))).collect() };
    let (mut x, mut y, e) = (vars("a"), vars("b"), S::var("e"));
    if !S::SYMBOLIC {
        let odd = [S::infinity(), -S::infinity(), S::nan()];
        for (i, s) in vars("s").into_iter().enumerate() {
            let s = (s.to_f64().unwrap() * 1e4).abs() as usize % 24;
            match s {
                0..=2 => x[i] = odd[s],
                3..=5 => y[i] = odd[s - 3],
                6..=8 => {
                    x[i] = odd[s - 6];
                    y[i] = x[i];
                }
                9..=11 => y[i] = x[i] + e,
                12..=14 => y[i] = x[i] - e,
                15..=17 => y[i] = x[i] + e / S::k(2),
                18 => y[i] = x[i] + e + e,
                _ => y[i] = x[i],
            }
        }
    }
    let same = |x: &[S], y: &[S]| x.iter().zip(y).all(|(a, b)| AbsDiffEq::abs_diff_eq(a, b, e));
    let r = AbsDiffEq::abs_diff_eq(&mk(&x), &mk(&y), e);
    S::check("componentwise", r == same(&x, &y));
    S::check("componentwise negated form", AbsDiffEq::abs_diff_ne(&mk(&x), &mk(&y), e) != same(&x, &y));
}
/// The same for many components: all but one, at every position, are close.
fn close_one<S: Sc, A: approx::AbsDiffEq<Epsilon = S>>(k: usize, mk: impl Fn(&[S]) -> A) {
    use approx::AbsDiffEq;
    let vars = |n: &str| -> Vec<S> { (0..k).map(|i| S::var(&format!("{}{}", n, i))).collect() };
    let (x, mut y, e) = (vars("a"), vars("b"), S::var("e").abs());
    let p = choose::<S>("@p", k);
    for i in (0..k).filter(|i| *i != p) {
        if !S::SYMBOLIC {
            y[i] = x[i];
        } else if !AbsDiffEq::abs_diff_eq(&x[i], &y[i], e) {
            S::prune()
        }
    }
    let r = AbsDiffEq::abs_diff_eq(&mk(&x), &mk(&y), e);
    let same = AbsDiffEq::abs_diff_eq(&x[p], &y[p], e);
    S::check("the one component decides", r == same);
    S::check("negated form", AbsDiffEq::abs_diff_ne(&mk(&x), &mk(&y), e) != same);
}
macro_rules! close {
    ($($f:ident $g:ident $h:ident $j:ident [$($p:tt)*] $k:expr, |$a:ident| $mk:expr;)*) => { $(
        fn $f<S: Sc $($p)*>() { close(|n| { let v: Vec<S> = (0..$k).map(|i| S::var(&format!("{}{}", n, i))).collect(); let $a = &v; ($mk, v.clone()) }) }
        fn $g<S: Sc $($p)*>() { close_laws(|n| { let v: Vec<S> = (0..$k).map(|i| S::var(&format!("{}{}", n, i))).collect(); let $a = &v; ($mk, v.clone()) }) }
        fn $h<S: Sc $($p)*>() { close_parts::<S, _>($k, |$a: &[S]| $mk) }
        fn $j<S: Sc $($p)*>() { close_one::<S, _>($k, |$a: &[S]| $mk) }
    )* };
}
fn va<S: Copy, const N: usize>(a: &[S]) -> [S; N] {
    core::array::from_fn(|i| a[i])
}
fn ma<S: Copy, const M: usize, const N: usize>(a: &[S]) -> Matrix<S, M, N> {
    Matrix::from_array_of_arrays(core::array::from_fn(|i| core::array::from_fn(|j| a[i * N + j])))
}
close!(
    close_vector laws_vector parts_vector one_vector [, const N: usize] N, |a| Vector::from(va::<S, N>(a));
    close_matrix laws_matrix parts_matrix one_matrix [, const M: usize, const N: usize] M * N, |a| ma::<S, M, N>(a);
    close_complex laws_complex parts_complex one_complex [] 2, |a| Complex::from(va(a));
    close_quaternion laws_quaternion parts_quaternion one_quaternion [] 4, |a| Quaternion::from(va::<S, 4>(a));
    close_moebius laws_moebius parts_moebius one_moebius [] 4, |a| Moebius::from(ma::<S, 2, 2>(a));
    close_shift laws_shift parts_shift one_shift [, const N: usize] N, |a| Shift::from(Vector::from(va::<S, N>(a)));
    close_scale laws_scale parts_scale one_scale [] 1, |a| Scale::from(a[0]);
    close_linear laws_linear parts_linear one_linear [, const N: usize] N * N, |a| Linear::from(ma::<S, N, N>(a));
    close_rotation2 laws_rotation2 parts_rotation2 one_rotation2 [] 2, |a| Rotation2::from(Complex::from(va(a)));
    close_rotation3 laws_rotation3 parts_rotation3 one_rotation3 [] 4, |a| Rotation3::from(Quaternion::from(va::<S, 4>(a)));
    close_chain laws_chain parts_chain one_chain [] 8, |a| Chain::<Moebius<S>, Moebius<S>, S>::new(Moebius::from(ma::<S, 2, 2>(a)), Moebius::from(ma::<S, 2, 2>(&a[4..])));
    close_chain2 laws_chain2 parts_chain2 one_chain2 [] 3, |a| Chain::<Shift<S, 2>, Scale<S>, S>::new(Shift::from(Vector::from(va::<S, 2>(a))), Scale::from(a[2]));
);

pub fn reg(v: &mut Vec<H>) {
    macro_rules! one { ($t:expr, $p:literal, $($f:ident)*) => { $( reg!(v, $t, [$p], $f); )* } }
    one!(Quick, "C24", rotation2_new rotation2_angle rotation2_isometry rotation3_new rotation3_group rotation3_angle rotation3_rebuild rotation3_isometry rotation3_linear);
    one!(Quick, "C25", linear_look_at linear_look_at_any rotation_look_at_any look_at_boundaries look_at_equator);
    one!(Quick, "C26", moebius_access moebius_scalar moebius_scalar_inv moebius_complex moebius_complex_inv moebius_quaternion moebius_quaternion_chain);
    reg1!(v, Quick, ["C27"], normalize_vector, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C27"], normalize_twice, [1 2 3 4 5 6 8 9]);
    one!(Quick, "C27", normalize_complex normalize_quaternion normalize_unit moebius_normalize_same moebius_normalize_fixed moebius_normalize_known moebius_normalize_det);
    macro_rules! dims { ($t:expr, $p:literal, $d:tt, $($f:ident)*) => { $( reg1!(v, $t, [$p], $f, $d); )* } }
    dims!(Quick, "C28", [1 2 3 4 5 6], close_vector laws_vector close_shift laws_shift);
    dims!(Quick, "C28", [1 2], close_linear laws_linear);
    reg2!(v, Quick, ["C28"], close_matrix, [(1 1) (1 2) (1 3) (2 1) (3 1) (2 2) (2 3) (3 2) (1 4) (4 1) (1 5) (5 1)]);
    reg2!(v, Quick, ["C28"], laws_matrix, [(1 3) (2 2)]);
    one!(Quick, "C28", close_complex laws_complex close_quaternion laws_quaternion close_moebius laws_moebius close_scale laws_scale);
    one!(Quick, "C28", close_rotation2 laws_rotation2 close_rotation3 laws_rotation3 close_chain close_chain2 laws_chain2);
    macro_rules! exact { ($($f:ident)*) => { $( regx!(v, Quick, ["C28"], $f); )* } }
    exact!(parts_complex parts_quaternion parts_moebius parts_scale parts_rotation2 parts_rotation3 parts_chain parts_chain2);
    regx1!(v, Quick, ["C28"], parts_vector, [1 2 3 4 5 6]);
    regx1!(v, Quick, ["C28"], parts_shift, [1 2 3 4]);
    regx1!(v, Quick, ["C28"], parts_linear, [1 2]);
    regx2!(v, Quick, ["C28"], parts_matrix, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (3 1) (3 2) (4 1) (1 5) (5 1)]);
    regx1!(v, Quick, ["C28"], one_vector, [7 8 9 16 17]);
    regx1!(v, Quick, ["C28"], one_shift, [5 6 8]);
    regx1!(v, Quick, ["C28"], one_linear, [3 4]);
    regx2!(v, Quick, ["C28"], one_matrix, [(2 4) (4 2) (3 3) (3 4) (4 3) (4 4) (2 5) (5 2) (5 5) (1 9) (9 1)]);
    dims!(Thorough, "C28", [3], close_linear laws_linear);
    reg2!(v, Thorough, ["C28"], close_matrix, [(2 4) (4 2) (3 3)]);
    reg1!(v, Quick, ["C27"], normalize_vector, [17 32]);
}
