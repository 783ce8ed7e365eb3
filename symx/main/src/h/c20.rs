//! Transform group laws (C20), chained transforms (C21), derivatives (C22), directions (C23).
use crate::util::*;
use vecmat::complex::Moebius;
use vecmat::transform::*;

/// A transform kind on points of `K`, with symbolic members.
pub trait Kind<S: Sc>: Copy {
    type P: Copy;
    fn make(n: &str) -> Self;
    fn point(n: &str) -> Self::P;
    /// Assume that the map can be inverted.
    fn invertible(&self);
    /// Assume that the map is defined at the point.
    fn defined(&self, _p: Self::P) {}
    fn same(l: &str, a: Self::P, b: Self::P);
}
macro_rules! vec_kind {
    ($T:ty, [$($g:tt)*], $N:tt, |$n:ident| $mk:expr, |$s:ident| $inv:expr) => {
        impl<S: Sc $($g)*> Kind<S> for $T {
            type P = Vector<S, $N>;
            fn make($n: &str) -> Self { $mk }
            fn point(n: &str) -> Self::P { vec(n) }
            fn invertible(&self) { let $s = *self; $inv }
            fn same(l: &str, a: Self::P, b: Self::P) { vveq(l, a, b) }
        }
    };
}
vec_kind!(Shift<S, N>, [, const N: usize], N, |n| Shift::from_vector(vec(n)), |_s| ());
vec_kind!(Linear<S, N>, [, const N: usize], N, |n| Linear::from_matrix(mat(n)), |s| S::assume(ne(s.into_matrix().det(), S::zero())));
vec_kind!(Rotation2<S>, [], 2, |n| Rotation2::from_complex(comp(n)), |s| S::assume(eq(ns(s.into_complex().into_array()), S::one())));
vec_kind!(Rotation3<S>, [], 3, |n| Rotation3::from_quaternion(quat(n)), |s| S::assume(eq(ns(s.into_quaternion().into_array()), S::one())));
/// A Scale acting on dimension N.
#[derive(Clone, Copy)]
pub struct Sca<S, const N: usize>(Scale<S>);
impl<S: Sc, const N: usize> Kind<S> for Sca<S, N> {
    type P = Vector<S, N>;
    fn make(n: &str) -> Self {
        Sca(Scale::from_mag(S::var(n)))
    }
    fn point(n: &str) -> Self::P {
        vec(n)
    }
    fn invertible(&self) {
        S::assume(ne(self.0.into_mag(), S::zero()))
    }
    fn same(l: &str, a: Self::P, b: Self::P) {
        vveq(l, a, b)
    }
}
impl<S: Sc, const N: usize> Transform<Vector<S, N>> for Sca<S, N> {
    fn identity() -> Self {
        Sca(<Scale<S> as Transform<Vector<S, N>>>::identity())
    }
    fn inv(self) -> Self {
        Sca(<Scale<S> as Transform<Vector<S, N>>>::inv(self.0))
    }
    fn apply(&self, p: Vector<S, N>) -> Vector<S, N> {
        self.0.apply(p)
    }
    fn deriv(&self, p: Vector<S, N>, d: Vector<S, N>) -> Vector<S, N> {
        self.0.deriv(p, d)
    }
    fn chain(self, o: Self) -> Self {
        Sca(<Scale<S> as Transform<Vector<S, N>>>::chain(self.0, o.0))
    }
}
impl<S: Sc> Kind<S> for Moebius<Complex<S>> {
    type P = Complex<S>;
    fn make(n: &str) -> Self {
        let e = |k: &str| comp(&format!("{}{}", n, k));
        Moebius::new(e("a"), e("b"), e("c"), e("d"))
    }
    fn point(n: &str) -> Self::P {
        comp(n)
    }
    fn invertible(&self) {
        let d = self.a() * self.d() - self.b() * self.c();
        S::assume(ne(d.norm_sqr(), S::zero()))
    }
    fn defined(&self, p: Self::P) {
        S::assume(ne((self.c() * p + self.d()).norm_sqr(), S::zero()))
    }
    fn same(l: &str, a: Self::P, b: Self::P) {
        ceq(l, a, b)
    }
}
pub fn ns<S: Sc, const N: usize>(a: [S; N]) -> S {
    sum(a.map(|x| x * x))
}

fn group<S: Sc, K: Kind<S> + Transform<K::P>>(unit: bool) {
    let (a, b, c) = (K::make("a"), K::make("b"), K::make("c"));
    let x = K::point("x");
    K::same("identity", K::identity().apply(x), x);
    a.defined(x);
    b.defined(x);
    let bx = b.apply(x);
    a.defined(bx);
    a.chain(b).defined(x);
    K::same("chain", a.chain(b).apply(x), a.apply(bx));
    K::same("identity.chain", K::identity().chain(a).apply(x), a.apply(x));
    K::same("chain identity", a.chain(K::identity()).apply(x), a.apply(x));
    if unit {
        return;
    }
    c.defined(x);
    b.defined(c.apply(x));
    b.chain(c).defined(x);
    a.defined(b.apply(c.apply(x)));
    a.defined(b.chain(c).apply(x));
    a.chain(b).defined(c.apply(x));
    a.chain(b).chain(c).defined(x);
    a.chain(b.chain(c)).defined(x);
    K::same("associative", a.chain(b).chain(c).apply(x), a.chain(b.chain(c)).apply(x));
}
fn inverse<S: Sc, K: Kind<S> + Transform<K::P>>() {
    let a = K::make("a");
    let x = K::point("x");
    a.invertible();
    a.defined(x);
    let i = a.inv();
    i.defined(x);
    i.defined(a.apply(x));
    a.defined(i.apply(x));
    i.chain(a).defined(x);
    a.chain(i).defined(x);
    K::same("inv(apply)", i.apply(a.apply(x)), x);
    K::same("apply(inv)", a.apply(i.apply(x)), x);
    K::same("a.chain(inv)", a.chain(i).apply(x), x);
    K::same("inv.chain(a)", i.chain(a).apply(x), x);
}
fn shift_apply<S: Sc, const N: usize>() {
    let (v, x) = (arr::<S, N>("v"), arr::<S, N>("x"));
    let s = Shift::from_vector(Vector::from(v));
    veq("apply", s.apply(Vector::from(x)), core::array::from_fn(|i| x[i] + v[i]));
    veq("into_vector", s.into_vector(), v);
    veq("From", Vector::from(Shift::from(Vector::from(v))), v);
}
fn scale_apply<S: Sc, const N: usize>() {
    let (m, x) = (S::var("m"), arr::<S, N>("x"));
    veq("apply", Scale::from_mag(m).apply(Vector::from(x)), x.map(|x| x * m));
    S::prove_eq("into_mag", Scale::from(m).into_mag(), m);
}
fn linear_apply<S: Sc, const N: usize>() {
    let (m, x) = (arr2::<S, N, N>("m"), arr::<S, N>("x"));
    let l = Linear::from_matrix(Matrix::from(m));
    veq("apply", l.apply(Vector::from(x)), core::array::from_fn(|i| sum((0..N).map(|j| m[i][j] * x[j]))));
    meq("into_matrix", l.into_matrix(), m);
    meq("From", Matrix::from(Linear::from(Matrix::from(m))), m);
}
macro_rules! grp {
    ($S:ident: $($f:ident $inv:ident [$($g:tt)*] $T:ty, $u:expr;)*) => { $(
        fn $f<$S: Sc $($g)*>() { group::<$S, $T>($u) }
        fn $inv<$S: Sc $($g)*>() { inverse::<$S, $T>() }
    )* };
}
grp!(S:
    group_shift inverse_shift [, const N: usize] Shift<S, N>, false;
    group_scale inverse_scale [, const N: usize] Sca<S, N>, false;
    group_linear inverse_linear [, const N: usize] Linear<S, N>, false;
    group_rotation2 inverse_rotation2 [] Rotation2<S>, false;
    group_rotation3 inverse_rotation3 [] Rotation3<S>, true;
    group_moebius inverse_moebius [] Moebius<Complex<S>>, true;
);
fn assoc_rotation3<S: Sc>() {
    let (a, b, c) = (Rotation3::<S>::make("a"), Rotation3::make("b"), Rotation3::make("c"));
    qeq("associative", a.chain(b).chain(c).into_quaternion(), a.chain(b.chain(c)).into_quaternion());
    qeq("one chain", Rotation3::<S>::identity().chain(a).into_quaternion(), a.into_quaternion());
    qeq("chain one", a.chain(Rotation3::identity()).into_quaternion(), a.into_quaternion());
    a.invertible();
    qeq("inverse", a.chain(a.inv()).into_quaternion(), Quaternion::one());
}
fn assoc_moebius<S: Sc>() {
    type M<S> = Moebius<Complex<S>>;
    let (a, b, c) = (M::<S>::make("a"), M::make("b"), M::make("c"));
    let ch = |x: M<S>, y: M<S>| <M<S> as Transform<Complex<S>>>::chain(x, y);
    let p = |l: &str, x: M<S>, y: M<S>| {
        ceq(l, x.a(), y.a());
        ceq(l, x.b(), y.b());
        ceq(l, x.c(), y.c());
        ceq(l, x.d(), y.d());
    };
    p("associative", ch(ch(a, b), c), ch(a, ch(b, c)));
}

// ---------------------------------------------------------------- chained transforms

macro_rules! chained {
    ($S:ident: $($apply:ident $chn:ident $inv:ident $der:ident [$($g:tt)*] $A:ty, $B:ty, $V:ty;)*) => { $(
        fn $apply<$S: Sc $($g)*>() {
            type C<$S> = ($S,);
            let _: Option<C<$S>> = None;
            let (a, b) = (<$A>::make("a"), <$B>::make("b"));
            let x: $V = <$A as Kind<$S>>::point("x");
            let c = Chain::<$A, $B, $V>::new(a, b);
            let same = <$A as Kind<$S>>::same;
            same("apply", c.apply(x), a.apply(b.apply(x)));
            same("identity", Chain::<$A, $B, $V>::identity().apply(x), x);
            let (o, i) = c.split();
            same("split outer", o.apply(x), a.apply(x));
            same("split inner", i.apply(x), b.apply(x));
            same("outer", c.outer().apply(x), a.apply(x));
            same("inner", c.inner().apply(x), b.apply(x));
            let d: Chain<$A, $B, $V> = (a, b).into();
            same("from pair", d.apply(x), c.apply(x));
            let (o, i): ($A, $B) = d.into();
            same("into pair outer", o.apply(x), a.apply(x));
            same("into pair inner", i.apply(x), b.apply(x));
            let (a2, b2) = (<$A>::make("e"), <$B>::make("f"));
            let mut d = c;
            *d.outer_mut() = a2;
            same("outer_mut", d.apply(x), a2.apply(b.apply(x)));
            let mut d = c;
            *d.inner_mut() = b2;
            same("inner_mut", d.apply(x), a.apply(b2.apply(x)));
        }
        fn $chn<$S: Sc $($g)*>() {
            let (a, b) = (<$A>::make("a"), <$B>::make("b"));
            let (c, d) = (<$A>::make("c"), <$B>::make("d"));
            let x: $V = <$A as Kind<$S>>::point("x");
            let same = <$A as Kind<$S>>::same;
            a.invertible();
            b.invertible();
            c.invertible();
            d.invertible();
            // A(B(x)) = B'(A'(x)), both ways
            let (b2, a2): ($B, $A) = a.reorder(b);
            same("reorder", b2.apply(a2.apply(x)), a.apply(b.apply(x)));
            let (a2, b2): ($A, $B) = b.reorder(a);
            same("reorder back", a2.apply(b2.apply(x)), b.apply(a.apply(x)));
            let (p, q) = (Chain::<$A, $B, $V>::new(a, b), Chain::<$A, $B, $V>::new(c, d));
            same("chain", p.chain(q).apply(x), a.apply(b.apply(c.apply(d.apply(x)))));
            same("chain identity", p.chain(Chain::identity()).apply(x), p.apply(x));
            same("identity chain", Chain::<$A, $B, $V>::identity().chain(p).apply(x), p.apply(x));
        }
        fn $inv<$S: Sc $($g)*>() {
            let (a, b) = (<$A>::make("a"), <$B>::make("b"));
            let x: $V = <$A as Kind<$S>>::point("x");
            let same = <$A as Kind<$S>>::same;
            a.invertible();
            b.invertible();
            let c = Chain::<$A, $B, $V>::new(a, b);
            same("inv(apply)", c.inv().apply(c.apply(x)), x);
            same("apply(inv)", c.apply(c.inv().apply(x)), x);
        }
        fn $der<$S: Sc $($g)*>() {
            let (a, b) = (<$A>::make("a"), <$B>::make("b"));
            let x: $V = <$A as Kind<$S>>::point("x");
            let v: $V = <$A as Kind<$S>>::point("v");
            let same = <$A as Kind<$S>>::same;
            let c = Chain::<$A, $B, $V>::new(a, b);
            same("deriv", c.deriv(x, v), a.deriv(b.apply(x), b.deriv(x, v)));
        }
    )* };
}
chained!(S:
    affine_apply affine_chain affine_inv affine_deriv [, const N: usize] Shift<S, N>, Linear<S, N>, Vector<S, N>;
    linsh_apply linsh_chain linsh_inv linsh_deriv [, const N: usize] Linear<S, N>, Shift<S, N>, Vector<S, N>;
    rot2sh_apply rot2sh_chain rot2sh_inv rot2sh_deriv [] Rotation2<S>, Shift<S, 2>, Vector<S, 2>;
    shrot2_apply shrot2_chain shrot2_inv shrot2_deriv [] Shift<S, 2>, Rotation2<S>, Vector<S, 2>;
    rot3sh_apply rot3sh_chain rot3sh_inv rot3sh_deriv [] Rotation3<S>, Shift<S, 3>, Vector<S, 3>;
    shrot3_apply shrot3_chain shrot3_inv shrot3_deriv [] Shift<S, 3>, Rotation3<S>, Vector<S, 3>;
);
// Scale is not tied to one dimension, so its pairings are spelled out.
fn scale_chain<S: Sc, const N: usize>() {
    type V<S, const N: usize> = Vector<S, N>;
    let (a, b): (Shift<S, N>, Shift<S, N>) = (Kind::make("a"), Kind::make("b"));
    let (m, n) = (Scale::from_mag(S::var("m")), Scale::from_mag(S::var("n")));
    let (x, v): (V<S, N>, V<S, N>) = (vec("x"), vec("v"));
    S::assume(ne(m.into_mag(), S::zero()));
    S::assume(ne(n.into_mag(), S::zero()));
    let (m2, a2): (Scale<S>, Shift<S, N>) = a.reorder(m);
    vveq("reorder", m2.apply(a2.apply(x)), a.apply(m.apply(x)));
    let (a2, m2): (Shift<S, N>, Scale<S>) = m.reorder(a);
    vveq("reorder back", a2.apply(m2.apply(x)), m.apply(a.apply(x)));
    type C1<S, const N: usize> = Chain<Shift<S, N>, Scale<S>, Vector<S, N>>;
    type C2<S, const N: usize> = Chain<Scale<S>, Shift<S, N>, Vector<S, N>>;
    let (p, q) = (C1::<S, N>::new(a, m), C1::<S, N>::new(b, n));
    let (r, s) = (C2::<S, N>::new(m, a), C2::<S, N>::new(n, b));
    vveq("apply", p.apply(x), a.apply(m.apply(x)));
    vveq("apply 2", r.apply(x), m.apply(a.apply(x)));
    vveq("identity", C1::<S, N>::identity().apply(x), x);
    vveq("identity 2", C2::<S, N>::identity().apply(x), x);
    vveq("chain", p.chain(q).apply(x), p.apply(q.apply(x)));
    vveq("chain 2", r.chain(s).apply(x), r.apply(s.apply(x)));
    vveq("inv", p.inv().apply(p.apply(x)), x);
    vveq("inv right", p.apply(p.inv().apply(x)), x);
    vveq("inv 2", r.inv().apply(r.apply(x)), x);
    vveq("inv right 2", r.apply(r.inv().apply(x)), x);
    vveq("deriv", p.deriv(x, v), v * m.into_mag());
    vveq("deriv 2", r.deriv(x, v), v * m.into_mag());
}
fn affine_parts<S: Sc, const N: usize>() {
    let (a, b): (Shift<S, N>, Linear<S, N>) = (Kind::make("a"), Kind::make("b"));
    let c = Affine::<S, N>::new(a, b);
    vveq("shift", c.shift().into_vector(), a.into_vector());
    mmeq("linear", c.linear().into_matrix(), b.into_matrix());
    let i = Affine::<S, N>::identity();
    vveq("identity shift", i.shift().into_vector(), Vector::zero());
    mmeq("identity linear", i.linear().into_matrix(), Matrix::one());
}

pub fn reg(v: &mut Vec<H>) {
    reg1!(v, Quick, ["C20"], shift_apply, [1 2 3 4 5 6 7 8 9 12 16]);
    reg1!(v, Quick, ["C20"], scale_apply, [1 2 3 4 5 6 7 8 9 12 16]);
    reg1!(v, Quick, ["C20"], linear_apply, [1 2 3 4 5 6 7 8 9 12 16]);
    reg1!(v, Quick, ["C20"], group_shift, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C20"], inverse_shift, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C20"], group_scale, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C20"], inverse_scale, [1 2 3 4 5 6 7 8 9 16]);
    reg1!(v, Quick, ["C20"], group_linear, [1 2 3 4 5 6 8 9]);
    reg1!(v, Quick, ["C20"], inverse_linear, [1 2 3 4 5 6]);
    reg1!(v, Thorough, ["C20"], group_linear, [7 10]);
    reg1!(v, Thorough, ["C20"], inverse_linear, [7]);
    reg!(v, Quick, ["C20"], group_rotation2);
    reg!(v, Quick, ["C20"], inverse_rotation2);
    reg!(v, Quick, ["C20"], group_rotation3);
    reg!(v, Quick, ["C20"], inverse_rotation3);
    reg!(v, Quick, ["C20"], assoc_rotation3);
    reg!(v, Quick, ["C20", "C26"], group_moebius);
    reg!(v, Quick, ["C20", "C26"], inverse_moebius);
    reg!(v, Quick, ["C20", "C26"], assoc_moebius);
    macro_rules! ch { ($($f:ident)*) => { $( reg!(v, Quick, ["C21"], $f); )* } }
    macro_rules! chn { ($t:expr, $d:tt, $($f:ident)*) => { $( reg1!(v, $t, ["C21"], $f, $d); )* } }
    ch!(rot2sh_apply rot2sh_chain rot2sh_inv rot2sh_deriv shrot2_apply shrot2_chain shrot2_inv shrot2_deriv);
    ch!(rot3sh_apply rot3sh_chain rot3sh_inv rot3sh_deriv shrot3_apply shrot3_chain shrot3_inv shrot3_deriv);
    chn!(Quick, [1 2 3 4], affine_apply affine_chain affine_inv affine_deriv affine_parts);
    chn!(Quick, [1 2 3 4], linsh_apply linsh_chain linsh_deriv);
    chn!(Quick, [1 2 3], linsh_inv);
    chn!(Quick, [1 2 3 4 5 6 8 9 16], scale_chain);
    chn!(Quick, [5 6], affine_apply affine_deriv affine_parts linsh_apply linsh_deriv);
    chn!(Quick, [5 6], affine_chain affine_inv);
    chn!(Thorough, [5], linsh_chain);
    chn!(Thorough, [7], affine_chain affine_inv);
}
