//! The symbolic scalar.
use crate::arena::*;
use crate::engine::{abort, infeasible, with, Ctx};
use crate::rat::Rat;
use num_traits::*;
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

/// A real-valued term. `W` is the width of the float type it stands for (it only selects
/// the machine epsilon).
#[derive(Clone, Copy)]
pub struct Sym<const W: u8>(u32);
pub type F64 = Sym<64>;
pub type F32 = Sym<32>;

const SPECIAL: u32 = 0xFFFF_FF00;

fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    with(f)
}

impl<const W: u8> Sym<W> {
    pub const EPSILON: Self = Sym(SPECIAL);
    pub const MIN_POSITIVE: Self = Sym(SPECIAL + 1);
    pub const INFINITY: Self = Sym(SPECIAL + 2);
    pub const NAN: Self = Sym(SPECIAL + 3);
    pub const MAX: Self = Sym(SPECIAL + 4);
    pub const MIN: Self = Sym(SPECIAL + 5);
    pub const NEG_INFINITY: Self = Sym(SPECIAL + 6);

    pub fn id(self) -> Id {
        if self.0 < SPECIAL {
            return self.0;
        }
        ctx(|c| match self.0 - SPECIAL {
            0 => c.ar.c(Rat { n: 1, d: if W == 32 { 1 << 23 } else { 1 << 52 } }),
            1 => c.ar.app("minpos", vec![]),
            2 => c.ar.app("inf", vec![]),
            3 => c.ar.app("nan", vec![]),
            4 => c.ar.app("maxval", vec![]),
            5 => {
                let m = c.ar.app("maxval", vec![]);
                c.ar.neg(m)
            }
            _ => {
                let m = c.ar.app("inf", vec![]);
                c.ar.neg(m)
            }
        })
    }
    pub fn of(id: Id) -> Self {
        Sym(id)
    }
    pub fn rat(n: i128, d: i128) -> Self {
        ctx(|c| Sym(c.ar.c(Rat::new(n, d).unwrap())))
    }
    pub fn input(name: &str) -> Self {
        ctx(|c| Sym(c.ar.var(name)))
    }
    pub fn constant(self) -> Option<Rat> {
        let i = self.id();
        ctx(|c| c.ar.is_const(i))
    }
    fn app1(self, f: &'static str) -> Self {
        let i = self.id();
        ctx(|c| Sym(c.ar.app(f, vec![i])))
    }
    fn app2(self, f: &'static str, o: Self) -> Self {
        let (i, j) = (self.id(), o.id());
        ctx(|c| Sym(c.ar.app(f, vec![i, j])))
    }
    fn un(self, f: impl FnOnce(&mut Ctx, Id) -> Id) -> Self {
        let i = self.id();
        ctx(|c| Sym(f(c, i)))
    }
    fn bin(self, o: Self, f: impl FnOnce(&mut Ctx, Id, Id) -> Id) -> Self {
        let (i, j) = (self.id(), o.id());
        ctx(|c| Sym(f(c, i, j)))
    }
    /// From here on, to the end of the path, operations are free function symbols; only the
    /// identities that hold bit for bit on floats and on integers are applied (signed zeros and
    /// NaN payloads apart): a+b = b+a, a-b = a+(-b), --a = a, a+0 = a, a*1 = a, a/1 = a.
    pub fn go_opaque() {
        ctx(|c| c.opaque = true)
    }
    fn un_op(self, name: &'static str, f: impl FnOnce(&mut Ctx, Id) -> Id) -> Self {
        let i = self.id();
        ctx(|c| {
            if !c.opaque || c.ar.is_const(i).is_some() {
                return Sym(f(c, i));
            }
            Sym(match (name, c.ar.node(i).clone()) {
                ("f_neg" , Node::App("f_neg", v)) => v[0],
                ("f_abs", Node::App("f_neg", v)) => c.ar.app("f_abs", v),
                _ => c.ar.app(name, vec![i]),
            })
        })
    }
    fn bin_op(self, o: Self, name: &'static str, f: impl FnOnce(&mut Ctx, Id, Id) -> Id) -> Self {
        let (i, j) = (self.id(), o.id());
        if matches!(name, "f_div" | "f_rem") {
            ctx(|c| c.divisions += 1);
        }
        if !ctx(|c| c.opaque) || (self.constant().is_some() && o.constant().is_some()) {
            return ctx(|c| Sym(f(c, i, j)));
        }
        let zero = |x| ctx(|c| c.ar.is_zero(x));
        let one = |x| ctx(|c| c.ar.is_one(x));
        match name {
            "f_sub" => return self + -o,
            "f_add" if zero(j) => return self,
            "f_add" if zero(i) => return o,
            "f_mul" | "f_div" if one(j) => return self,
            "f_mul" if one(i) => return o,
            _ => {}
        }
        let sorted = matches!(name, "f_add" | "f_mul" | "f_max" | "f_min" | "f_hypot") && i > j;
        ctx(|c| Sym(c.ar.app(name, if sorted { vec![j, i] } else { vec![i, j] })))
    }
    pub fn cmp_b(op: Op, a: Self, b: Self) -> Bid {
        let (i, j) = (a.id(), b.id());
        ctx(|c| c.ar.cmp(op, i, j))
    }
    pub fn branch(b: Bid) -> bool {
        match ctx(|c| c.decide(b)) {
            Ok(v) => v,
            Err(a) => abort(a.0),
        }
    }
    pub fn fact(b: Bid) {
        if !ctx(|c| c.assume(b)) {
            infeasible()
        }
    }
    /// A fresh value in the half-open (or closed) range.
    pub fn draw(low: Self, high: Self, closed: bool) -> Self {
        let v = Self::fresh("draw");
        Self::fact(Self::cmp_b(Op::Le, low, v));
        Self::fact(Self::cmp_b(if closed { Op::Le } else { Op::Lt }, v, high));
        ctx(|c| c.draws.last_mut().unwrap().2 = Some((low.id(), high.id())));
        v
    }
    pub fn fresh(kind: &'static str) -> Self {
        let n = ctx(|c| {
            c.fresh += 1;
            c.fresh
        });
        let v = Self::input(&format!("{}#{}", kind, n));
        ctx(|c| c.draws.push((kind, v.id(), None)));
        v
    }
    fn lit(x: i128) -> Self {
        Self::rat(x, 1)
    }
}

macro_rules! binop {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $ar:ident) => {
        impl<const W: u8> $Tr for Sym<W> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                self.bin_op(o, concat!("f_", stringify!($ar)), |c, a, b| c.ar.$ar(a, b))
            }
        }
        impl<'a, const W: u8> $Tr<&'a Sym<W>> for Sym<W> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                self.bin_op(*o, concat!("f_", stringify!($ar)), |c, a, b| c.ar.$ar(a, b))
            }
        }
        impl<'a, 'b, const W: u8> $Tr<&'b Sym<W>> for &'a Sym<W> {
            type Output = Sym<W>;
            fn $f(self, o: &'b Sym<W>) -> Sym<W> {
                self.bin_op(*o, concat!("f_", stringify!($ar)), |c, a, b| c.ar.$ar(a, b))
            }
        }
        impl<'a, const W: u8> $Tr<Sym<W>> for &'a Sym<W> {
            type Output = Sym<W>;
            fn $f(self, o: Sym<W>) -> Sym<W> {
                self.bin_op(o, concat!("f_", stringify!($ar)), |c, a, b| c.ar.$ar(a, b))
            }
        }
        impl<const W: u8> $TrA for Sym<W> {
            fn $fa(&mut self, o: Self) {
                *self = $Tr::$f(*self, o)
            }
        }
        impl<'a, const W: u8> $TrA<&'a Sym<W>> for Sym<W> {
            fn $fa(&mut self, o: &'a Self) {
                *self = $Tr::$f(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add);
binop!(Sub, sub, SubAssign, sub_assign, sub);
binop!(Mul, mul, MulAssign, mul_assign, mul);
binop!(Div, div, DivAssign, div_assign, div);
binop!(Rem, rem, RemAssign, rem_assign, rem);

impl<const W: u8> Neg for Sym<W> {
    type Output = Self;
    fn neg(self) -> Self {
        self.un_op("f_neg", |c, a| c.ar.neg(a))
    }
}
impl<'a, const W: u8> Neg for &'a Sym<W> {
    type Output = Sym<W>;
    fn neg(self) -> Sym<W> {
        -*self
    }
}
impl<const W: u8> std::iter::Sum for Sym<W> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::lit(0), |a, b| a + b)
    }
}
impl<const W: u8> std::iter::Product for Sym<W> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::lit(1), |a, b| a * b)
    }
}
impl<const W: u8> PartialEq for Sym<W> {
    fn eq(&self, o: &Self) -> bool {
        Self::branch(Self::cmp_b(Op::Eq, *self, *o))
    }
}
impl<const W: u8> PartialOrd for Sym<W> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(if *self < *o {
            Ordering::Less
        } else if *self == *o {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Self) -> bool {
        Self::branch(Self::cmp_b(Op::Lt, *self, *o))
    }
    fn le(&self, o: &Self) -> bool {
        Self::branch(Self::cmp_b(Op::Le, *self, *o))
    }
    fn gt(&self, o: &Self) -> bool {
        Self::branch(Self::cmp_b(Op::Lt, *o, *self))
    }
    fn ge(&self, o: &Self) -> bool {
        Self::branch(Self::cmp_b(Op::Le, *o, *self))
    }
}
impl<const W: u8> Default for Sym<W> {
    fn default() -> Self {
        Self::lit(0)
    }
}
impl<const W: u8> fmt::Debug for Sym<W> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "~{}", self.0)
    }
}
impl<const W: u8> fmt::Display for Sym<W> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl<const W: u8> Zero for Sym<W> {
    fn zero() -> Self {
        Self::lit(0)
    }
    fn is_zero(&self) -> bool {
        *self == Self::lit(0)
    }
}
impl<const W: u8> One for Sym<W> {
    fn one() -> Self {
        Self::lit(1)
    }
}
impl<const W: u8> Num for Sym<W> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const W: u8> Inv for Sym<W> {
    type Output = Self;
    fn inv(self) -> Self {
        Self::lit(1) / self
    }
}
impl<const W: u8> ToPrimitive for Sym<W> {
    fn to_i64(&self) -> Option<i64> {
        self.constant().map(|r| (r.n / r.d) as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        self.constant().map(|r| (r.n / r.d) as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        self.constant().map(|r| r.to_f64())
    }
}
impl<const W: u8> NumCast for Sym<W> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        let f = n.to_f64()?;
        let r = Rat::from_f64(f)?;
        Some(ctx(|c| Sym(c.ar.c(r))))
    }
}
impl<const W: u8> FromPrimitive for Sym<W> {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Self::lit(n as i128))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Self::lit(n as i128))
    }
    fn from_f64(n: f64) -> Option<Self> {
        let r = Rat::from_f64(n)?;
        Some(ctx(|c| Sym(c.ar.c(r))))
    }
}
impl<const W: u8> From<f64> for Sym<W> {
    fn from(x: f64) -> Self {
        <Self as FromPrimitive>::from_f64(x).expect("symx-internal: literal out of range")
    }
}

macro_rules! uf1 { ($($f:ident)*) => { $( fn $f(self) -> Self { self.app1(stringify!($f)) } )* } }
macro_rules! uf2 { ($($f:ident)*) => { $( fn $f(self, o: Self) -> Self { self.app2(stringify!($f), o) } )* } }

macro_rules! float_methods {
    ($($vis:tt)?) => {
        $($vis)? fn is_nan(self) -> bool { false }
        $($vis)? fn is_infinite(self) -> bool { false }
        $($vis)? fn is_finite(self) -> bool { true }
        $($vis)? fn is_normal(self) -> bool { true }
        $($vis)? fn classify(self) -> FpCategory { FpCategory::Normal }
        $($vis)? fn abs(self) -> Self { self.un_op("f_abs", |c, a| c.ar.abs(a)) }
        $($vis)? fn signum(self) -> Self {
            self.un_op("f_signum", |c, a| {
                let z = c.ar.int(0);
                let b = c.ar.cmp(Op::Lt, a, z);
                let (m, p) = (c.ar.int(-1), c.ar.int(1));
                c.ar.ite(b, m, p)
            })
        }
        $($vis)? fn is_sign_positive(self) -> bool { Self::branch(Self::cmp_b(Op::Le, Self::lit(0), self)) }
        $($vis)? fn is_sign_negative(self) -> bool { !self.is_sign_positive() }
        $($vis)? fn recip(self) -> Self { Self::lit(1) / self }
        $($vis)? fn powi(self, n: i32) -> Self {
            if n.unsigned_abs() > 16 {
                abort(format!("powi exponent {} out of bounds", n));
            }
            if ctx(|c| c.opaque) && n != 1 && self.constant().is_none() {
                return self.app2("f_powi", Self::lit(n as i128));
            }
            let mut r = Self::lit(1);
            for _ in 0..n.unsigned_abs() {
                r = r * self;
            }
            if n < 0 { Self::lit(1) / r } else { r }
        }
        $($vis)? fn max(self, o: Self) -> Self {
            self.bin_op(o, "f_max", |c, a, b| { let q = c.ar.cmp(Op::Lt, a, b); c.ar.ite(q, b, a) })
        }
        $($vis)? fn min(self, o: Self) -> Self {
            self.bin_op(o, "f_min", |c, a, b| { let q = c.ar.cmp(Op::Lt, b, a); c.ar.ite(q, b, a) })
        }
        $($vis)? fn to_degrees(self) -> Self { self * Self::lit(180) / <Self as FloatConst>::PI() }
        $($vis)? fn to_radians(self) -> Self { self * <Self as FloatConst>::PI() / Self::lit(180) }
    };
}
macro_rules! float_more {
    ($($vis:tt)?) => {
        $($vis)? fn mul_add(self, a: Self, b: Self) -> Self {
            if !ctx(|c| c.opaque) {
                return self * a + b;
            }
            let (x, y, z) = (self.id(), a.id(), b.id());
            ctx(|c| Sym(c.ar.app("f_fma", if x <= y { vec![x, y, z] } else { vec![y, x, z] })))
        }
        $($vis)? fn sqrt(self) -> Self { self.un_op("f_sqrt", |c, a| c.ar.sqrt(a)) }
        $($vis)? fn abs_sub(self, o: Self) -> Self {
            self.bin_op(o, "f_dim", |c, a, b| {
                let q = c.ar.cmp(Op::Le, a, b);
                let d = c.ar.sub(a, b);
                let z = c.ar.int(0);
                c.ar.ite(q, z, d)
            })
        }
        $($vis)? fn hypot(self, o: Self) -> Self {
            self.bin_op(o, "f_hypot", |c, a, b| {
                let (x, y) = (c.ar.mul(a, a), c.ar.mul(b, b));
                let s = c.ar.add(x, y);
                c.ar.sqrt(s)
            })
        }
        $($vis)? fn sin(self) -> Self { self.un_op("f_sin", |c, a| c.ar.cossin(a).1) }
        $($vis)? fn cos(self) -> Self { self.un_op("f_cos", |c, a| c.ar.cossin(a).0) }
        $($vis)? fn sin_cos(self) -> (Self, Self) { (self.sin(), self.cos()) }
        $($vis)? fn atan2(self, o: Self) -> Self { self.app2("atan2", o) }
    };
}

impl<const W: u8> Float for Sym<W> {
    fn nan() -> Self { Self::NAN }
    fn infinity() -> Self { Self::INFINITY }
    fn neg_infinity() -> Self { Self::NEG_INFINITY }
    fn neg_zero() -> Self { Self::lit(0) }
    fn min_value() -> Self { Self::MIN }
    fn min_positive_value() -> Self { Self::MIN_POSITIVE }
    fn max_value() -> Self { Self::MAX }
    fn epsilon() -> Self { Self::of(Self::EPSILON.id()) }
    float_methods!();
    float_more!();
    uf1!(floor ceil round trunc fract exp exp2 ln log2 log10 cbrt tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    uf2!(powf log);
    fn copysign(self, s: Self) -> Self {
        self.bin(s, |c, a, b| {
            let z = c.ar.int(0);
            let m = c.ar.abs(a);
            let n = c.ar.neg(m);
            let q = c.ar.cmp(Op::Lt, b, z);
            c.ar.ite(q, n, m)
        })
    }
    fn clamp(self, lo: Self, hi: Self) -> Self {
        Float::min(Float::max(self, lo), hi)
    }
    fn integer_decode(self) -> (u64, i16, i8) { abort("integer_decode of a symbolic value".into()) }
}
impl<const W: u8> float::FloatCore for Sym<W> {
    fn nan() -> Self { Self::NAN }
    fn infinity() -> Self { Self::INFINITY }
    fn neg_infinity() -> Self { Self::NEG_INFINITY }
    fn neg_zero() -> Self { Self::lit(0) }
    fn min_value() -> Self { Self::MIN }
    fn min_positive_value() -> Self { Self::MIN_POSITIVE }
    fn max_value() -> Self { Self::MAX }
    fn epsilon() -> Self { Self::of(Self::EPSILON.id()) }
    float_methods!();
    uf1!(floor ceil round trunc fract);
    fn integer_decode(self) -> (u64, i16, i8) { abort("integer_decode of a symbolic value".into()) }
}
/// The inherent methods of the primitive floats.
impl<const W: u8> Sym<W> {
    float_methods!(pub);
    float_more!(pub);
    pub fn floor(self) -> Self { Float::floor(self) }
    pub fn exp(self) -> Self { Float::exp(self) }
    pub fn ln(self) -> Self { Float::ln(self) }
}
macro_rules! consts {
    ($($f:ident $name:literal)*) => { $( fn $f() -> Self { ctx(|c| Sym(c.ar.app($name, vec![]))) } )* }
}
macro_rules! pis {
    ($($f:ident $n:literal $d:literal)*) => { $( #[allow(non_snake_case)] fn $f() -> Self {
        ctx(|c| { let p = c.ar.pi(); let k = c.ar.c(Rat { n: $n, d: $d }); Sym(c.ar.mul(k, p)) })
    } )* }
}
#[allow(non_snake_case)]
impl<const W: u8> FloatConst for Sym<W> {
    pis!(PI 1 1  FRAC_PI_2 1 2  FRAC_PI_3 1 3  FRAC_PI_4 1 4  FRAC_PI_6 1 6  FRAC_PI_8 1 8  TAU 2 1);
    fn FRAC_1_PI() -> Self { Self::lit(1) / Self::PI() }
    fn FRAC_2_PI() -> Self { Self::lit(2) / Self::PI() }
    fn FRAC_2_SQRT_PI() -> Self { Self::lit(2) / Float::sqrt(Self::PI()) }
    fn SQRT_2() -> Self { Float::sqrt(Self::lit(2)) }
    fn FRAC_1_SQRT_2() -> Self { Self::lit(1) / Float::sqrt(Self::lit(2)) }
    consts!(E "c_e" LN_10 "c_ln10" LN_2 "c_ln2" LOG10_E "c_log10e" LOG2_E "c_log2e");
}

#[cfg(feature = "real")]
mod real {
    use super::*;
    use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
    use rand::distributions::Distribution;
    use rand::Rng;

    #[derive(Clone, Copy, Debug)]
    pub struct SymUniform<const W: u8> {
        low: Sym<W>,
        high: Sym<W>,
        closed: bool,
    }
    impl<const W: u8> UniformSampler for SymUniform<W> {
        type X = Sym<W>;
        fn new<A: SampleBorrow<Sym<W>>, B: SampleBorrow<Sym<W>>>(l: A, h: B) -> Self {
            let (low, high) = (*l.borrow(), *h.borrow());
            assert!(low < high, "Uniform::new called with `low >= high`");
            SymUniform { low, high, closed: false }
        }
        fn new_inclusive<A: SampleBorrow<Sym<W>>, B: SampleBorrow<Sym<W>>>(l: A, h: B) -> Self {
            let (low, high) = (*l.borrow(), *h.borrow());
            assert!(low <= high, "Uniform::new_inclusive called with `low > high`");
            SymUniform { low, high, closed: true }
        }
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Sym<W> {
            r.next_u32();
            Sym::draw(self.low, self.high, self.closed)
        }
    }
    impl<const W: u8> SampleUniform for Sym<W> {
        type Sampler = SymUniform<W>;
    }
    /// A word other than zero asks for the draw to be zero.
    impl<const W: u8> Distribution<Sym<W>> for vecmat::distr::Normal {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Sym<W> {
            if r.next_u32() != 0 {
                return Sym::zero();
            }
            Sym::fresh("normal")
        }
    }
    impl<const W: u8> Distribution<Sym<W>> for rand::distributions::Standard {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Sym<W> {
            r.next_u32();
            Sym::draw(Sym::zero(), Sym::one(), false)
        }
    }
    impl<const W: u8> approx::AbsDiffEq for Sym<W> {
        type Epsilon = Self;
        fn default_epsilon() -> Self {
            Self::of(Self::EPSILON.id())
        }
        fn abs_diff_eq(&self, o: &Self, eps: Self) -> bool {
            if ctx(|c| c.opaque) {
                let p = Sym::<W>(ctx(|c| c.ar.app("f_close", vec![self.id(), o.id(), eps.id()])));
                return Self::branch(Self::cmp_b(Op::Lt, Self::lit(0), p));
            }
            let d = Float::abs(*self - *o);
            let (e, l) = (Self::cmp_b(Op::Eq, *self, *o), Self::cmp_b(Op::Le, d, eps));
            Self::branch(ctx(|c| c.ar.or(vec![e, l])))
        }
    }
    use vecmat::traits::*;
    impl<const W: u8> Dot for Sym<W> {
        type Output = Self;
        fn dot(self, o: Self) -> Self {
            self * o
        }
    }
    impl<const W: u8> NormL1 for Sym<W> {
        type Output = Self;
        fn norm_l1(self) -> Self {
            Float::abs(self)
        }
    }
    impl<const W: u8> NormL2 for Sym<W> {
        type Output = Self;
        fn norm_l2(self) -> Self {
            Float::abs(self)
        }
        fn norm_l2_sqr(self) -> Self {
            self * self
        }
    }
    impl<const W: u8> NormLInf for Sym<W> {
        type Output = Self;
        fn norm_l_inf(self) -> Self {
            Float::abs(self)
        }
    }
    impl<const W: u8> Conj for Sym<W> {
        fn conj(self) -> Self {
            self
        }
    }
    impl<const W: u8> Epsilon for Sym<W> {
        fn is_epsilon(&self) -> bool {
            Float::abs(*self) <= Self::EPSILON
        }
    }
}
