//! One interface for running a harness symbolically (`Sym`) and natively (`f64`, `f32`, `Rep`).
use crate::arena::{Bid, Op};
use crate::engine::{name_hash, panic_text, with, Goal, Model, Native};
use crate::sym::Sym;
use num_traits::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Conditions that are not branched on.
#[derive(Clone, Debug)]
pub enum Cond<S> {
    Lt(S, S),
    Le(S, S),
    Eq(S, S),
    Not(Box<Cond<S>>),
    And(Vec<Cond<S>>),
    Or(Vec<Cond<S>>),
}
pub fn lt<S>(a: S, b: S) -> Cond<S> {
    Cond::Lt(a, b)
}
pub fn le<S>(a: S, b: S) -> Cond<S> {
    Cond::Le(a, b)
}
pub fn eq<S>(a: S, b: S) -> Cond<S> {
    Cond::Eq(a, b)
}
pub fn ne<S>(a: S, b: S) -> Cond<S> {
    Cond::Not(Box::new(Cond::Eq(a, b)))
}
pub fn not<S>(a: Cond<S>) -> Cond<S> {
    Cond::Not(Box::new(a))
}
pub fn all<S>(v: Vec<Cond<S>>) -> Cond<S> {
    Cond::And(v)
}
pub fn any<S>(v: Vec<Cond<S>>) -> Cond<S> {
    Cond::Or(v)
}

pub trait Scal:
    Float + FloatConst + NumAssign + Inv<Output = Self> + NumCast + fmt::Debug + fmt::Display + Default + 'static
{
    const SYMBOLIC: bool;
    /// A free input.
    fn var(name: &str) -> Self;
    /// An integer constant.
    fn k(n: i64) -> Self {
        <Self as NumCast>::from(n).unwrap()
    }
    /// Assume a condition.
    fn assume(c: Cond<Self>);
    /// State a proof obligation.
    fn prove(label: &str, c: Cond<Self>);
    fn prove_eq(label: &str, a: Self, b: Self) {
        Self::prove(label, Cond::Eq(a, b))
    }
    /// `b` (concrete on this path) must agree with the condition.
    fn prove_iff(label: &str, b: bool, c: Cond<Self>) {
        Self::prove(label, if b { c } else { Cond::Not(Box::new(c)) })
    }
    /// A concrete fact that must be true on every path.
    fn check(label: &str, b: bool);
    /// Discharge what was stated so far and use it as a fact from here on.
    fn lemma() {}
    /// Leave this path: it is outside the stated bounds.
    fn prune() -> !;
    /// The random values drawn so far: kind, value and range.
    fn draws() -> Vec<(&'static str, Self, Option<(Self, Self)>)>;
    /// Divisions and remainders executed so far (0 natively).
    fn divisions() -> usize {
        0
    }
    /// The same term: equal whatever the inputs (false natively).
    fn same(_a: Self, _b: Self) -> bool {
        false
    }
    /// Free function symbol, for closures and leaf functions.
    fn uf(name: &'static str, args: &[Self]) -> Self;
}

impl<const W: u8> Sym<W> {
    fn cond(c: &Cond<Self>) -> Bid {
        match c {
            Cond::Lt(a, b) => Self::cmp_b(Op::Lt, *a, *b),
            Cond::Le(a, b) => Self::cmp_b(Op::Le, *a, *b),
            Cond::Eq(a, b) => Self::cmp_b(Op::Eq, *a, *b),
            Cond::Not(x) => {
                let x = Self::cond(x);
                with(|c| c.ar.not(x))
            }
            Cond::And(v) => {
                let v: Vec<Bid> = v.iter().map(Self::cond).collect();
                with(|c| c.ar.and(v))
            }
            Cond::Or(v) => {
                let v: Vec<Bid> = v.iter().map(Self::cond).collect();
                with(|c| c.ar.or(v))
            }
        }
    }
}

impl<const W: u8> Scal for Sym<W> {
    const SYMBOLIC: bool = true;
    fn var(name: &str) -> Self {
        Sym::input(name)
    }
    fn assume(c: Cond<Self>) {
        let b = Self::cond(&c);
        Sym::<W>::fact(b)
    }
    fn prove(label: &str, c: Cond<Self>) {
        let b = Self::cond(&c);
        let eq = match &c {
            Cond::Eq(x, y) => Some((x.id(), y.id())),
            _ => None,
        };
        with(|c| c.prove(Goal { label: label.to_string(), b, eq }))
    }
    fn check(label: &str, b: bool) {
        with(|c| {
            let g = if b { c.ar.t() } else { c.ar.f() };
            c.prove(Goal { label: label.to_string(), b: g, eq: None })
        })
    }
    fn lemma() {
        with(|c| c.lemma_flush())
    }
    fn prune() -> ! {
        crate::engine::infeasible()
    }
    fn draws() -> Vec<(&'static str, Self, Option<(Self, Self)>)> {
        with(|c| c.draws.iter().map(|(k, v, r)| (*k, Sym::of(*v), r.map(|(l, h)| (Sym::of(l), Sym::of(h))))).collect())
    }
    fn divisions() -> usize {
        with(|c| c.divisions)
    }
    fn same(a: Self, b: Self) -> bool {
        a.id() == b.id()
    }
    fn uf(name: &'static str, args: &[Self]) -> Self {
        let v: Vec<_> = args.iter().map(|a| a.id()).collect();
        with(|c| Sym::of(c.ar.app(name, v)))
    }
}

// ---------------------------------------------------------------- native side

struct NatCtx {
    vars: Model,
    draws: u32,
    drawn: Vec<(&'static str, f64, Option<(f64, f64)>)>,
    pass: usize,
    fail: Option<(String, String)>,
    inconclusive: usize,
}
thread_local! {
    static NAT: RefCell<NatCtx> = RefCell::new(NatCtx { vars: Model::new(), draws: 0, drawn: vec![], pass: 0, fail: None, inconclusive: 0 });
}
struct AssumeFailed;

/// Run `f` natively on the inputs of `m`.
pub fn run_native(f: fn(), m: &Model) -> Native {
    NAT.with(|n| *n.borrow_mut() = NatCtx { vars: m.clone(), draws: 0, drawn: vec![], pass: 0, fail: None, inconclusive: 0 });
    let r = catch_unwind(AssertUnwindSafe(f));
    NAT.with(|n| {
        let n = n.borrow();
        match r {
            _ if n.fail.is_some() => {
                let (label, detail) = n.fail.clone().unwrap();
                Native::Fail { label, detail }
            }
            Ok(()) if n.pass == 0 => Native::Inconclusive(format!("{} comparisons without a verdict", n.inconclusive)),
            Ok(()) => Native::Pass(n.pass),
            Err(p) if p.is::<AssumeFailed>() => Native::AssumeFailed,
            Err(p) => Native::Panic(panic_text(&*p)),
        }
    })
}
/// The inputs of the native run this thread is in.
pub fn native_inputs() -> Model {
    NAT.with(|n| n.try_borrow().map(|n| n.vars.clone()).unwrap_or_default())
}
thread_local! {
    /// Equalities natively are exact, and inputs other than the model's may be tried.
    static EXACT: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static SALT: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// As `run_native`, with exact equalities.  The model of uninterpreted arithmetic fixes the values
/// of function symbols that have a meaning on floats, so further inputs derived from the model's
/// names are tried after it.
pub fn run_exact(f: fn(), m: &Model) -> Native {
    EXACT.with(|e| e.set(true));
    let mut out = run_native(f, m);
    for k in 1..400 {
        if matches!(out, Native::Fail { .. }) {
            break;
        }
        SALT.with(|s| s.set(k));
        let r = run_native(f, m);
        if matches!(r, Native::Fail { .. }) || !matches!(out, Native::Pass(_)) {
            out = r;
        }
    }
    SALT.with(|s| s.set(0));
    EXACT.with(|e| e.set(false));
    out
}
/// The `k`-th value tried for an input.
pub fn salted(name: &str, k: u64) -> f64 {
    let h = name_hash(&format!("{}/{}", name, k));
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    match h % 16 {
        0 => ((h >> 8) % 9) as f64 - 4.0,
        1 => u * 1e-12,
        2 => u * 1e12,
        3 => 3.0,
        x => (u * 8.0 + 1e-3) * if x % 2 == 0 { 1.0 } else { -1.0 },
    }
}
fn nat_var(name: &str) -> f64 {
    let k = SALT.with(|s| s.get());
    if k > 0 && !name.starts_with('@') {
        return salted(name, k);
    }
    NAT.with(|n| {
        n.borrow().vars.get(name).copied().unwrap_or_else(|| {
            let h = name_hash(name);
            let v = ((h % 23) as f64 - 11.0) / 4.0;
            if v == 0.0 {
                0.375
            } else {
                v
            }
        })
    })
}
/// A native value and a bound on the rounding error it carries.
type Ap = (f64, f64);
/// Whether the two differ by no more than rounding explains; None where nothing can be said.
fn near(a: Ap, b: Ap) -> Option<bool> {
    if a.0 == b.0 {
        return Some(true);
    }
    if a.1 == 0.0 && b.1 == 0.0 && a.0.is_finite() && b.0.is_finite() {
        return Some(false);
    }
    let e = 4.0 * (a.1 + b.1) + 1e-300;
    if a.0.is_finite() && b.0.is_finite() {
        return if (a.0 - b.0).abs() <= e {
            if e < 1e-2 * a.0.abs().max(b.0.abs()).max(1.0) {
                Some(true)
            } else {
                None
            }
        } else if e.is_nan() {
            None
        } else {
            Some(false)
        };
    }
    // infinities and NaN that rounding may have caused refute nothing
    if (!a.0.is_finite() && !b.0.is_finite()) || !e.is_finite() {
        None
    } else {
        Some(false)
    }
}
/// Three-valued truth: None where rounding decides.
fn truth(c: &Cond<Ap>) -> Option<bool> {
    match c {
        Cond::Lt(a, b) if a.1 == 0.0 && b.1 == 0.0 && a.0.is_finite() && b.0.is_finite() => Some(a.0 < b.0),
        Cond::Le(a, b) if a.1 == 0.0 && b.1 == 0.0 && a.0.is_finite() && b.0.is_finite() => Some(a.0 <= b.0),
        Cond::Lt(a, b) | Cond::Le(a, b) => {
            if !a.0.is_finite() || !b.0.is_finite() || near(*a, *b) != Some(false) {
                None
            } else {
                Some(a.0 < b.0)
            }
        }
        Cond::Eq(a, b) => {
            if EXACT.with(|e| e.get()) {
                Some(a.0 == b.0 || (a.0.is_nan() && b.0.is_nan()))
            } else {
                near(*a, *b)
            }
        }
        Cond::Not(x) => match &**x {
            // an equality within the tolerance does not refute an inequation
            Cond::Eq(a, b) if a.0.is_finite() && b.0.is_finite() => {
                if a.0 == b.0 {
                    Some(false)
                } else if near(*a, *b) == Some(false) {
                    Some(true)
                } else {
                    None
                }
            }
            _ => truth(x).map(|v| !v),
        },
        Cond::And(v) => {
            let mut r = Some(true);
            for x in v {
                match truth(x) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Cond::Or(v) => {
            let mut r = Some(false);
            for x in v {
                match truth(x) {
                    Some(true) => return Some(true),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
    }
}
/// Truth with the float comparison as it is, apart from equalities which get the tolerance.
fn holds(c: &Cond<Ap>) -> bool {
    match c {
        Cond::Lt(a, b) => a.0 < b.0,
        Cond::Le(a, b) => a.0 <= b.0 || near(*a, *b) == Some(true),
        Cond::Eq(..) => truth(c) == Some(true),
        Cond::Not(x) => match &**x {
            Cond::Eq(a, b) => a.0 != b.0,
            x => !holds(x),
        },
        Cond::And(v) => v.iter().all(|x| holds(x)),
        Cond::Or(v) => v.iter().any(|x| holds(x)),
    }
}
/// Scalars of native runs: the value and the error it may carry.
trait Approx: ToPrimitive {
    fn ap(&self) -> Ap;
}
fn fixed(v: f64, tol: f64) -> Ap {
    (v, if v.is_finite() { tol * v.abs().max(1.0) / 8.0 } else { 0.0 })
}
impl Approx for f64 {
    fn ap(&self) -> Ap {
        fixed(*self, 1e-6)
    }
}
impl Approx for f32 {
    fn ap(&self) -> Ap {
        fixed(*self as f64, 2e-3)
    }
}
impl Approx for Rep {
    fn ap(&self) -> Ap {
        (self.0, self.1)
    }
}
fn to64<S: Approx>(c: &Cond<S>) -> Cond<Ap> {
    let f = |x: &S| x.ap();
    match c {
        Cond::Lt(a, b) => Cond::Lt(f(a), f(b)),
        Cond::Le(a, b) => Cond::Le(f(a), f(b)),
        Cond::Eq(a, b) => Cond::Eq(f(a), f(b)),
        Cond::Not(x) => Cond::Not(Box::new(to64(x))),
        Cond::And(v) => Cond::And(v.iter().map(to64).collect()),
        Cond::Or(v) => Cond::Or(v.iter().map(to64).collect()),
    }
}
fn nat_assume(c: Cond<Ap>) {
    if !holds(&c) {
        resume_unwind(Box::new(AssumeFailed));
    }
}
fn nat_record(label: &str, r: Option<bool>, detail: impl FnOnce() -> String) {
    NAT.with(|n| {
        let mut n = n.borrow_mut();
        match r {
            Some(true) => n.pass += 1,
            Some(false) => {
                if n.fail.is_none() {
                    n.fail = Some((label.to_string(), detail()));
                }
            }
            None => n.inconclusive += 1,
        }
    })
}
fn nat_uf(name: &str, args: &[f64]) -> f64 {
    let h = name_hash(name);
    let mut r = ((h % 7) as f64 + 2.0) / 3.0;
    for (i, a) in args.iter().enumerate() {
        let k = ((h >> (8 * (i % 7) + 3)) % 9) as f64 + 2.0;
        r = r * 0.75 + a * (k + i as f64 * 1.5) / 4.0 + a * r / 16.0;
    }
    r
}

macro_rules! native {
    ($T:ty, $of:expr) => {
        impl Scal for $T {
            const SYMBOLIC: bool = false;
            fn var(name: &str) -> Self {
                $of(nat_var(name))
            }
            fn assume(c: Cond<Self>) {
                nat_assume(to64(&c))
            }
            fn prove(label: &str, c: Cond<Self>) {
                let c = to64(&c);
                nat_record(label, truth(&c), || format!("{:?} is false", c))
            }
            fn check(label: &str, b: bool) {
                nat_record(label, Some(b), || "false".to_string())
            }
            fn prune() -> ! {
                resume_unwind(Box::new(AssumeFailed))
            }
            fn draws() -> Vec<(&'static str, Self, Option<(Self, Self)>)> {
                let f = $of;
                NAT.with(|n| n.borrow().drawn.iter().map(|(k, v, r)| (*k, f(*v), r.map(|(l, h)| (f(l), f(h))))).collect())
            }
            fn uf(name: &'static str, args: &[Self]) -> Self {
                let v: Vec<Ap> = args.iter().map(|x| x.ap()).collect();
                let at = |v: &[Ap]| nat_uf(name, &v.iter().map(|x| x.0).collect::<Vec<_>>());
                let r = at(&v);
                let mut e = 16.0 * U * r.abs();
                for i in 0..v.len() {
                    let mut w = v.clone();
                    w[i].0 += w[i].1;
                    e += 2.0 * (at(&w) - r).abs();
                }
                <$T>::made(r, e)
            }
        }
    };
}
const U: f64 = f64::EPSILON;
trait Made {
    fn made(v: f64, e: f64) -> Self;
}
impl Made for f64 {
    fn made(v: f64, _: f64) -> f64 {
        v
    }
}
impl Made for f32 {
    fn made(v: f64, _: f64) -> f32 {
        v as f32
    }
}
impl Made for Rep {
    fn made(v: f64, e: f64) -> Rep {
        Rep(v, e)
    }
}
native!(f64, |x: f64| x);
native!(f32, |x: f64| x as f32);
native!(Rep, Rep::input);

/// An f64 that carries a bound on its rounding error (which no operation looks at) and whose random
/// draws come from the replayed model.
#[derive(Clone, Copy, Default)]
pub struct Rep(pub f64, pub f64);

impl PartialEq for Rep {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Rep {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}

impl Rep {
    /// A constant, rounded to nearest unless it is a small dyadic number.
    pub fn input(v: f64) -> Rep {
        let s = v * 1048576.0;
        Rep(v, if s == s.trunc() && v.abs() < 1e9 { 0.0 } else { U * v.abs() })
    }
    /// The result of `f`, with the spread of `f` over the ends of the arguments' intervals.
    fn spread(r: f64, clean: bool, ends: &[f64]) -> Rep {
        if !r.is_finite() {
            return Rep(r, if clean { 0.0 } else { f64::INFINITY });
        }
        let mut d = 0.0f64;
        let mut some = ends.is_empty();
        for x in ends {
            if !x.is_nan() {
                some = true;
                d = d.max((x - r).abs());
            }
        }
        Rep(r, if some { 1.5 * d + 4.0 * U * r.abs() } else { f64::INFINITY })
    }
    fn lift1(self, f: impl Fn(f64) -> f64) -> Rep {
        let (v, e) = (self.0, self.1);
        if e == 0.0 || !v.is_finite() {
            return Self::spread(f(v), e == 0.0, &[]);
        }
        let ends = [f(v - e), f(v + e)];
        let r = Self::spread(f(v), false, &ends);
        if ends.iter().any(|x| x.is_nan()) {
            // at the edge of the domain the slope may be anything
            return Rep(r.0, r.1.max(2.0 * e.sqrt()));
        }
        r
    }
    fn lift2(self, o: Self, f: impl Fn(f64, f64) -> f64) -> Rep {
        let (a, b) = (self, o);
        if (a.1 == 0.0 && b.1 == 0.0) || !a.0.is_finite() || !b.0.is_finite() {
            return Self::spread(f(a.0, b.0), a.1 == 0.0 && b.1 == 0.0, &[]);
        }
        let ends =
            [f(a.0 - a.1, b.0 - b.1), f(a.0 - a.1, b.0 + b.1), f(a.0 + a.1, b.0 - b.1), f(a.0 + a.1, b.0 + b.1)];
        Self::spread(f(a.0, b.0), false, &ends)
    }
    fn add_(self, o: Self) -> Rep {
        let r = self.0 + o.0;
        Self::done(r, self.1 + o.1 + U * r.abs(), self, o)
    }
    fn sub_(self, o: Self) -> Rep {
        self.add_(-o)
    }
    fn mul_(self, o: Self) -> Rep {
        let r = self.0 * o.0;
        let lost = if r == 0.0 && self.0 != 0.0 && o.0 != 0.0 { f64::MIN_POSITIVE } else { 0.0 };
        Self::done(r, self.0.abs() * o.1 + o.0.abs() * self.1 + self.1 * o.1 + U * r.abs() + lost, self, o)
    }
    fn div_(self, o: Self) -> Rep {
        let r = self.0 / o.0;
        if o.0 == 0.0 && o.1 == 0.0 {
            return Rep(r, self.1);
        }
        let m = o.0.abs() - o.1;
        if m <= 0.0 {
            return Rep(r, f64::INFINITY);
        }
        let lost = if r == 0.0 && self.0 != 0.0 { f64::MIN_POSITIVE } else { 0.0 };
        Self::done(r, (self.1 + r.abs() * o.1) / m + U * r.abs() + lost, self, o)
    }
    fn rem_(self, o: Self) -> Rep {
        self.lift2(o, |a, b| a % b)
    }
    /// An infinity or NaN is clean, and refutes, when no operand carried an unbounded error;
    /// overflow is not.
    fn done(r: f64, e: f64, a: Rep, b: Rep) -> Rep {
        if r.is_finite() {
            Rep(r, if e.is_nan() { f64::INFINITY } else { e })
        } else {
            let overflow = a.0.is_finite() && b.0.is_finite();
            Rep(r, if a.1.is_finite() && b.1.is_finite() && !overflow { 0.0 } else { f64::INFINITY })
        }
    }
    pub fn replayed(kind: &'static str) -> f64 {
        let n = NAT.with(|n| {
            let mut n = n.borrow_mut();
            n.draws += 1;
            n.draws
        });
        let v = nat_var(&format!("{}#{}", kind, n));
        NAT.with(|n| n.borrow_mut().drawn.push((kind, v, None)));
        v
    }
    pub fn draw(low: f64, high: f64, closed: bool) -> Rep {
        let v = Self::replayed("draw");
        NAT.with(|n| n.borrow_mut().drawn.last_mut().unwrap().2 = Some((low, high)));
        if !(low <= v && (v < high || (closed && v <= high))) {
            // rounding of the model value at the ends of the range
            if v < low && low - v < 1e-9 {
                return Rep::input(low);
            }
            resume_unwind(Box::new(AssumeFailed));
        }
        Rep::input(v)
    }
}
impl fmt::Debug for Rep {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Rep {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
macro_rules! repop {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $fi:ident) => {
        impl $Tr for Rep {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                self.$fi(o)
            }
        }
        impl $TrA for Rep {
            fn $fa(&mut self, o: Self) {
                *self = $Tr::$f(*self, o)
            }
        }
    };
}
repop!(Add, add, AddAssign, add_assign, add_);
repop!(Sub, sub, SubAssign, sub_assign, sub_);
repop!(Mul, mul, MulAssign, mul_assign, mul_);
repop!(Div, div, DivAssign, div_assign, div_);
repop!(Rem, rem, RemAssign, rem_assign, rem_);
impl Neg for Rep {
    type Output = Self;
    fn neg(self) -> Self {
        Rep(-self.0, self.1)
    }
}
impl Zero for Rep {
    fn zero() -> Self {
        Rep(0.0, 0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Rep {
    fn one() -> Self {
        Rep(1.0, 0.0)
    }
}
impl Num for Rep {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl Inv for Rep {
    type Output = Self;
    fn inv(self) -> Self {
        Self::one() / self
    }
}
impl ToPrimitive for Rep {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Rep {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(Rep::input)
    }
}
macro_rules! rep1 { ($($f:ident)*) => { $( fn $f(self) -> Self { self.lift1(|x| Float::$f(x)) } )* } }
macro_rules! rep2 { ($($f:ident)*) => { $( fn $f(self, o: Self) -> Self { self.lift2(o, |x, y| Float::$f(x, y)) } )* } }
macro_rules! rep0 { ($($f:ident)*) => { $( fn $f() -> Self { Rep(<f64 as Float>::$f(), 0.0) } )* } }
macro_rules! repb { ($($f:ident)*) => { $( fn $f(self) -> bool { self.0.$f() } )* } }
macro_rules! repc { ($($f:ident)*) => { $( fn $f() -> Self { Rep::input(<f64 as FloatConst>::$f()) } )* } }
impl Float for Rep {
    rep0!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    repb!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    rep1!(floor ceil round trunc fract abs signum recip exp exp2 ln log2 log10 sqrt cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh to_degrees to_radians);
    rep2!(powf log max min abs_sub hypot atan2 copysign);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        let e = self * a + b;
        Rep(self.0.mul_add(a.0, b.0), e.1)
    }
    fn powi(self, n: i32) -> Self {
        self.lift1(|x| x.powi(n))
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn clamp(self, a: Self, b: Self) -> Self {
        let e = self.1.max(a.1).max(b.1);
        Rep(self.0.clamp(a.0, b.0), e)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
#[allow(non_snake_case)]
impl FloatConst for Rep {
    repc!(PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 TAU FRAC_1_PI FRAC_2_PI FRAC_2_SQRT_PI SQRT_2 FRAC_1_SQRT_2 E LN_10 LN_2 LOG10_E LOG2_E);
}
#[allow(dead_code)]
fn _unused(_: Ordering) {}

#[cfg(feature = "real")]
mod real {
    use super::*;
    use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
    use rand::distributions::Distribution;
    use rand::Rng;
    use vecmat::traits::*;

    #[derive(Clone, Copy, Debug)]
    pub struct RepUniform {
        low: Rep,
        high: Rep,
        closed: bool,
    }
    impl UniformSampler for RepUniform {
        type X = Rep;
        fn new<A: SampleBorrow<Rep>, B: SampleBorrow<Rep>>(l: A, h: B) -> Self {
            let (low, high) = (*l.borrow(), *h.borrow());
            assert!(low < high, "Uniform::new called with `low >= high`");
            RepUniform { low, high, closed: false }
        }
        fn new_inclusive<A: SampleBorrow<Rep>, B: SampleBorrow<Rep>>(l: A, h: B) -> Self {
            let (low, high) = (*l.borrow(), *h.borrow());
            assert!(low <= high, "Uniform::new_inclusive called with `low > high`");
            RepUniform { low, high, closed: true }
        }
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Rep {
            r.next_u32();
            Rep::draw(self.low.0, self.high.0, self.closed)
        }
    }
    impl SampleUniform for Rep {
        type Sampler = RepUniform;
    }
    impl Distribution<Rep> for vecmat::distr::Normal {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Rep {
            if r.next_u32() != 0 {
                return Rep::zero();
            }
            Rep::input(Rep::replayed("normal"))
        }
    }
    impl Distribution<Rep> for rand::distributions::Standard {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Rep {
            r.next_u32();
            Rep::draw(0.0, 1.0, false)
        }
    }
    impl approx::AbsDiffEq for Rep {
        type Epsilon = Self;
        fn default_epsilon() -> Self {
            Rep(f64::EPSILON, 0.0)
        }
        fn abs_diff_eq(&self, o: &Self, eps: Self) -> bool {
            self.0 == o.0 || (self.0 - o.0).abs() <= eps.0
        }
    }
    impl Dot for Rep {
        type Output = Self;
        fn dot(self, o: Self) -> Self {
            self * o
        }
    }
    impl NormL1 for Rep {
        type Output = Self;
        fn norm_l1(self) -> Self {
            self.abs()
        }
    }
    impl NormL2 for Rep {
        type Output = Self;
        fn norm_l2(self) -> Self {
            self.abs()
        }
        fn norm_l2_sqr(self) -> Self {
            self * self
        }
    }
    impl NormLInf for Rep {
        type Output = Self;
        fn norm_l_inf(self) -> Self {
            self.abs()
        }
    }
    impl Conj for Rep {
        fn conj(self) -> Self {
            self
        }
    }
    impl Epsilon for Rep {
        fn is_epsilon(&self) -> bool {
            self.0.is_epsilon()
        }
    }
}
