//! Random distributions (C29) and formatting (C30).
use super::c20::ns;
use crate::util::*;
use rand::distributions::uniform::SampleUniform;
use rand::distributions::{Distribution, Uniform as Ranged};
use rand::{Error, Rng, RngCore};
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use std::marker::PhantomData;
use vecmat::complex::Moebius;
use vecmat::distr::*;
use vecmat::matrix::MatrixDistribution;
use vecmat::transform::*;
use vecmat::vector::VectorDistribution;

/// A generator that ends the path after some draws (the bound on rejection loops), the first ones zero.
struct Limit<S> {
    zeros: usize,
    left: usize,
    phantom: PhantomData<S>,
}
impl<S: Scal> RngCore for Limit<S> {
    fn next_u32(&mut self) -> u32 {
        if self.zeros > 0 {
            self.zeros -= 1;
            return 1;
        }
        if self.left == 0 {
            S::prune()
        }
        self.left -= 1;
        0
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.next_u32();
        d.fill(0)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn rng<S>(n: usize) -> Limit<S> {
    Limit { zeros: 0, left: n, phantom: PhantomData }
}
const UNLUCKY: usize = 1000;
/// Enough zeros for many rejected attempts at n draws each, then two attempts.
fn unlucky<S>(n: usize) -> Limit<S> {
    Limit { zeros: UNLUCKY * n, left: 2 * n, phantom: PhantomData }
}
fn draw<D: Distribution<X>, X, S: Scal>(d: D, mut r: Limit<S>) -> X {
    d.sample(&mut r)
}
/// Numbers its results n0, n1, ...
struct Inner<S>(Cell<usize>, PhantomData<S>);
impl<S: Scal> Distribution<S> for Inner<S> {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> S {
        r.next_u32();
        let i = self.0.get();
        self.0.set(i + 1);
        S::var(&format!("n{}", i))
    }
}
fn vector_distribution<S: Sc, const N: usize>() {
    let d = VectorDistribution::<Inner<S>, S, N>::new(Inner(Cell::new(0), PhantomData));
    let v: Vector<S, N> = d.sample(&mut rng::<S>(100));
    for i in 0..N {
        S::prove_eq(&format!("component {}", i), v[i], S::var(&format!("n{}", i)));
    }
    S::check("one draw per component", d.inner.0.get() == N);
}
fn matrix_distribution<S: Sc, const M: usize, const N: usize>() {
    let d = MatrixDistribution::<Inner<S>, S, M, N>::new(Inner(Cell::new(0), PhantomData));
    let m: Matrix<S, M, N> = d.sample(&mut rng::<S>(100));
    for i in 0..M {
        for j in 0..N {
            S::prove_eq(&format!("element ({}, {})", i, j), m[(i, j)], S::var(&format!("n{}", i * N + j)));
        }
    }
    S::check("one draw per element", d.inner.0.get() == M * N);
}
/// The components are exactly the draws, each once.
fn from_draws<S: Sc>(l: &str, c: Vec<S>) {
    let mut a: Vec<String> = c.iter().map(|x| format!("{:?}", x)).collect();
    let mut b: Vec<String> = S::draws().iter().map(|x| format!("{:?}", x.1)).collect();
    a.sort();
    b.sort();
    S::check(l, a == b);
}
fn flat<S: Copy, const M: usize, const N: usize>(m: Matrix<S, M, N>) -> Vec<S> {
    m.into_array_of_arrays().iter().flat_map(|r| r.to_vec()).collect()
}
trait Ra: Sc + SampleUniform + NormL1<Output = Self> {}
impl<T: Sc + SampleUniform> Ra for T {}

fn gauss_vector<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Vector<S, N>, S>(Normal, rng::<S>(100));
    from_draws("vector", v.into_array().to_vec());
    let d = S::draws();
    for i in 0..N {
        S::prove_eq("in order", v[i], d[i].1);
    }
}
fn gauss_matrix<S: Ra, const M: usize, const N: usize>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Matrix<S, M, N>, S>(Normal, rng::<S>(100));
    from_draws("matrix", flat(m));
    let d = S::draws();
    for (i, x) in flat(m).into_iter().enumerate() {
        S::prove_eq("in order", x, d[i].1);
    }
}
fn gauss_complex<S: Ra>()
where
    Normal: Distribution<S>,
{
    let z = draw::<_, Complex<S>, S>(Normal, rng::<S>(100));
    from_draws("complex", z.into_array().to_vec());
}
fn gauss_quaternion<S: Ra>()
where
    Normal: Distribution<S>,
{
    let z = draw::<_, Quaternion<S>, S>(Normal, rng::<S>(100));
    from_draws("quaternion", z.into_array().to_vec());
}
fn gauss_shift<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Shift<S, N>, S>(Normal, rng::<S>(100));
    from_draws("shift", v.into_vector().into_array().to_vec());
}
fn gauss_scale<S: Ra>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Scale<S>, S>(Normal, rng::<S>(100));
    from_draws("scale", vec![v.into_mag()]);
}
fn gauss_linear<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Linear<S, N>, S>(Normal, rng::<S>(100));
    from_draws("linear", flat(v.into_matrix()));
}
fn gauss_affine<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Affine<S, N>, S>(Normal, rng::<S>(100));
    let mut c = flat(v.linear().into_matrix());
    c.extend(v.shift().into_vector().into_array());
    from_draws("affine", c);
}
/// |x| > eps
fn long<S: Sc, const N: usize>(l: &str, x: [S; N]) {
    let e = S::epsilon();
    S::prove(l, lt(S::one(), ns(x) / (e * e)));
}
const ATTEMPTS: usize = 3;
fn nonzero_vector<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Vector<S, N>, S>(NonZero, rng::<S>(ATTEMPTS * N));
    long("longer than epsilon", v.into_array());
}
fn nonzero_complex<S: Ra>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Complex<S>, S>(NonZero, rng::<S>(ATTEMPTS * 2));
    long("longer than epsilon", v.into_array());
}
fn nonzero_quaternion<S: Ra>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Quaternion<S>, S>(NonZero, rng::<S>(ATTEMPTS * 4));
    long("longer than epsilon", v.into_array());
}
fn unit_vector<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Vector<S, N>, S>(Unit, rng::<S>(ATTEMPTS * N));
    S::prove_eq("unit", ns(v.into_array()), S::one());
}
fn unit_complex<S: Ra>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Complex<S>, S>(Unit, rng::<S>(ATTEMPTS * 2));
    S::prove_eq("unit", ns(v.into_array()), S::one());
}
fn unit_quaternion<S: Ra>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Quaternion<S>, S>(Unit, rng::<S>(ATTEMPTS * 4));
    S::prove_eq("unit", ns(v.into_array()), S::one());
}
fn unlucky_nonzero<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Vector<S, N>, S>(NonZero, unlucky::<S>(N));
    long("longer than epsilon", v.into_array());
}
fn unlucky_unit<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let v = draw::<_, Vector<S, N>, S>(Unit, unlucky::<S>(N));
    S::prove_eq("unit", ns(v.into_array()), S::one());
}
fn unlucky_numbers<S: Ra>()
where
    Normal: Distribution<S>,
{
    let r = |n| unlucky::<S>(n);
    match choose::<S>("which", 5) {
        0 => long("complex", draw::<_, Complex<S>, S>(NonZero, r(2)).into_array()),
        1 => long("quaternion", draw::<_, Quaternion<S>, S>(NonZero, r(4)).into_array()),
        2 => S::prove_eq("unit complex", ns(draw::<_, Complex<S>, S>(Unit, r(2)).into_array()), S::one()),
        3 => S::prove_eq("unit quaternion", ns(draw::<_, Quaternion<S>, S>(Unit, r(4)).into_array()), S::one()),
        _ => away("Moebius", draw::<_, Moebius<S>, S>(Invertible, r(4)).det()),
    }
}
fn unlucky_invertible<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    match choose::<S>("which", 3) {
        0 => away("matrix", draw::<_, Matrix<S, N, N>, S>(Invertible, unlucky::<S>(N * N)).det()),
        1 => away("linear", draw::<_, Linear<S, N>, S>(Invertible, unlucky::<S>(N * N)).into_matrix().det()),
        _ => {
            // the shift is drawn before or after the matrix
            let r = Limit { left: 2 * N * N + N, ..unlucky::<S>(N * N) };
            away("affine", draw::<_, Affine<S, N>, S>(Invertible, r).linear().into_matrix().det())
        }
    }
}
fn unlucky_rotation<S: Ra>()
where
    Normal: Distribution<S>,
    Ranged<S>: Distribution<S>,
{
    let r = Limit { left: 7, ..unlucky::<S>(3) };
    let r = draw::<_, Rotation3<S>, S>(Uniform, r);
    S::prove_eq("unit", r.into_quaternion().norm_sqr(), S::one());
}
fn away<S: Sc>(l: &str, d: S) {
    let e = S::epsilon();
    S::prove(l, any(vec![lt(S::one(), d / e), lt(d / e, -S::one())]));
}
fn attempts(n: usize) -> usize {
    if n > 3 {
        1
    } else {
        ATTEMPTS
    }
}
/// The accepted value consists of draws.
fn last_draws<S: Sc>(c: Vec<S>) {
    let draws: Vec<String> = S::draws().iter().map(|x| format!("{:?}", x.1)).collect();
    for x in c {
        S::check("element drawn", draws.contains(&format!("{:?}", x)));
    }
}
fn invertible_matrix<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Matrix<S, N, N>, S>(Invertible, rng::<S>(attempts(N) * N * N));
    away("determinant", m.det());
    last_draws(flat(m));
}
fn invertible_linear<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Linear<S, N>, S>(Invertible, rng::<S>(attempts(N) * N * N));
    away("determinant", m.into_matrix().det());
    last_draws(flat(m.into_matrix()));
}
fn invertible_affine<S: Ra, const N: usize>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Affine<S, N>, S>(Invertible, rng::<S>((attempts(N) + 2) / 2 * N * N + N));
    away("determinant", m.linear().into_matrix().det());
    // the shift and the accepted matrix are draws
    let draws: Vec<String> = S::draws().iter().map(|x| format!("{:?}", x.1)).collect();
    for x in m.shift().into_vector().into_array() {
        S::check("shift drawn", draws.contains(&format!("{:?}", x)));
    }
}
fn invertible_moebius<S: Ra>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Moebius<S>, S>(Invertible, rng::<S>(ATTEMPTS * 4));
    away("determinant", m.a() * m.d() - m.b() * m.c());
}
fn invertible_moebius_complex<S: Ra>()
where
    Normal: Distribution<S>,
{
    let m = draw::<_, Moebius<Complex<S>>, S>(Invertible, rng::<S>(2 * 8));
    let d = m.a() * m.d() - m.b() * m.c();
    S::prove("determinant", lt(S::one(), (d.re().abs() + d.im().abs()) / S::epsilon()));
}
/// The angle that a uniform draw over the full turn stands for.
fn full_turn<S: Ra>() -> S {
    let d: Vec<_> = S::draws().into_iter().filter(|d| d.0 == "draw").collect();
    S::check("one ranged draw", d.len() == 1);
    let (_, u, r) = d[0];
    let (lo, hi) = r.unwrap();
    let turn = S::k(2) * S::PI();
    if hi - lo == turn {
        u
    } else {
        turn * (u - lo) / (hi - lo)
    }
}
fn uniform_rotation2<S: Ra>()
where
    Ranged<S>: Distribution<S>,
{
    let r = draw::<_, Rotation2<S>, S>(Uniform, rng::<S>(10));
    let a = full_turn::<S>();
    ceq("rotation by the drawn angle", r.into_complex(), Complex::new(a.cos(), a.sin()));
    S::prove_eq("unit", r.into_complex().norm_sqr(), S::one());
}
fn uniform_rotation3<S: Ra>()
where
    Normal: Distribution<S>,
    Ranged<S>: Distribution<S>,
{
    let r = draw::<_, Rotation3<S>, S>(Uniform, rng::<S>(ATTEMPTS * 3 + 1));
    let h = full_turn::<S>() / S::k(2);
    let [w, x, y, z] = r.into_quaternion().into_array();
    S::prove_eq("unit", w * w + x * x + y * y + z * z, S::one());
    S::prove_eq("half angle", w, h.cos());
    S::prove_eq("axis part", x * x + y * y + z * z, h.sin() * h.sin());
}

// ---------------------------------------------------------------- formatting

/// Accepts `left` writes, then fails.
struct Sink {
    text: String,
    left: usize,
    failed: bool,
    after: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
        }
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}
fn printed<S: Sc, X: Display + Debug>(name: &str, x: &X, c: &[S]) {
    for debug in [false, true] {
        let f = |s: &S| if debug { format!("{:?}", s) } else { format!("{}", s) };
        let text = if debug { format!("{:?}", x) } else { format!("{}", x) };
        let t: String = text.chars().filter(|c| !c.is_whitespace()).collect();
        let body = t.strip_prefix(name).and_then(|t| t.strip_prefix('(')).and_then(|t| t.strip_suffix(')'));
        let l = if debug { "Debug" } else { "Display" };
        S::check(&format!("{} name and brackets", l), body.is_some());
        let body = body.unwrap_or("");
        let parts: Vec<&str> = body.strip_suffix(',').unwrap_or(body).split(',').collect();
        let want: Vec<String> = c.iter().map(f).collect();
        S::check(&format!("{} components in order", l), parts == want);
    }
}
fn sinks<S: Sc, X: Display + Debug>(x: &X, bound: usize) {
    let debug = choose::<S>("debug", 2) == 1;
    let k = choose::<S>("fails", bound);
    let full = if debug { format!("{:?}", x) } else { format!("{}", x) };
    let mut s = Sink { text: String::new(), left: k, failed: false, after: 0 };
    let r = if debug { write!(s, "{:?}", x) } else { write!(s, "{}", x) };
    S::check("an error is returned exactly when the sink failed", r.is_err() == s.failed);
    S::check("nothing is written after an error", s.after == 0);
    S::check("what was written is a prefix", full.starts_with(&s.text) && (s.failed || full == s.text));
}
fn format_vector<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    printed(&format!("Vector{}", N), &Vector::from(a), &a);
}
fn format_matrix<S: Sc, const M: usize, const N: usize>() {
    let m = mat::<S, M, N>("a");
    printed(&format!("Matrix{}x{}", M, N), &m, &flat(m));
}
fn format_complex<S: Sc>() {
    let a = arr::<S, 2>("a");
    printed("Complex", &Complex::from(a), &a);
}
fn format_quaternion<S: Sc>() {
    let a = arr::<S, 4>("a");
    printed("Quaternion", &Quaternion::from(a), &a);
}
/// A component that prints itself by one write, whatever its value.
struct Word(String);
fn word<S: Sc>(x: S) -> Word {
    Word(format!("{:?}", x))
}
impl Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Debug for Word {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("d")?;
        f.write_str(&self.0)
    }
}
fn sink_vector<S: Sc, const N: usize>() {
    sinks::<S, _>(&Vector::from(arr::<S, N>("a").map(word)), 8 + 4 * N);
}
fn sink_matrix<S: Sc, const M: usize, const N: usize>() {
    sinks::<S, _>(&Matrix::from(arr2::<S, M, N>("a").map(|r| r.map(word))), 12 + M * (3 + 4 * N));
}
fn sink_complex<S: Sc>() {
    sinks::<S, _>(&Complex::from(arr::<S, 2>("a").map(word)), 12);
}
fn sink_quaternion<S: Sc>() {
    sinks::<S, _>(&Quaternion::from(arr::<S, 4>("a").map(word)), 20);
}

macro_rules! rep {
    ($v:expr, $t:expr, $f:ident $(, $g:tt)*) => {
        $v.push(H {
            name: concat!(stringify!($f) $(, "_", stringify!($g))*).to_string(),
            props: &["C29"],
            tier: $t,
            sym: || $f::<F64 $(, $g)*>(),
            nat: |m| run_native(|| $f::<Rep $(, $g)*>(), m),
        })
    };
}
macro_rules! rep1 { ($v:expr, $t:expr, $f:ident, [$($n:tt)*]) => { $( rep!($v, $t, $f, $n); )* } }
macro_rules! rep2 { ($v:expr, $t:expr, $f:ident, [$(($m:tt $n:tt))*]) => { $( rep!($v, $t, $f, $m, $n); )* } }

pub fn reg(v: &mut Vec<H>) {
    reg1!(v, Quick, ["C29"], vector_distribution, [1 2 3 4 5 6 7 8 9 16]);
    reg2!(v, Quick, ["C29"], matrix_distribution, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 6) (6 1) (2 5) (5 2) (5 5)]);
    rep1!(v, Quick, gauss_vector, [1 2 3 4 5 6 8 9]);
    rep2!(v, Quick, gauss_matrix, [(1 1) (1 2) (2 1) (2 2) (2 3) (3 2) (3 3) (4 4) (3 5)]);
    rep!(v, Quick, gauss_complex);
    rep!(v, Quick, gauss_quaternion);
    rep!(v, Quick, gauss_scale);
    rep1!(v, Quick, gauss_shift, [1 2 3 4 5]);
    rep1!(v, Quick, gauss_linear, [1 2 3 4 5]);
    rep1!(v, Quick, gauss_affine, [1 2 3 4 5]);
    rep1!(v, Quick, nonzero_vector, [1 2 3 4 5 6]);
    rep!(v, Quick, nonzero_complex);
    rep!(v, Quick, nonzero_quaternion);
    rep1!(v, Quick, unit_vector, [1 2 3 4 5 6]);
    rep!(v, Quick, unit_complex);
    rep!(v, Quick, unit_quaternion);
    rep1!(v, Quick, invertible_matrix, [1 2 3 4 5]);
    rep1!(v, Quick, invertible_linear, [1 2 3 4]);
    rep1!(v, Quick, invertible_affine, [1 2 3 4]);
    rep!(v, Quick, invertible_moebius);
    rep!(v, Quick, invertible_moebius_complex);
    rep!(v, Quick, uniform_rotation2);
    rep!(v, Quick, uniform_rotation3);
    rep1!(v, Quick, unlucky_nonzero, [1 2 3 4]);
    rep1!(v, Quick, unlucky_unit, [1 2 3 4]);
    rep1!(v, Quick, unlucky_invertible, [1 2 3]);
    rep!(v, Quick, unlucky_numbers);
    rep!(v, Quick, unlucky_rotation);
    rep1!(v, Thorough, nonzero_vector, [7 8]);
    reg1!(v, Quick, ["C30"], format_vector, [1 2 3 4 5 6 7 8 9 16]);
    reg2!(v, Quick, ["C30"], format_matrix, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 6) (6 1) (2 5) (5 2) (5 5)]);
    reg!(v, Quick, ["C30"], format_complex);
    reg!(v, Quick, ["C30"], format_quaternion);
    reg1!(v, Quick, ["C30"], sink_vector, [1 2 3 4]);
    reg2!(v, Quick, ["C30"], sink_matrix, [(1 1) (1 2) (2 1) (2 2) (1 3) (3 1)]);
    reg!(v, Quick, ["C30"], sink_complex);
    reg!(v, Quick, ["C30"], sink_quaternion);
    reg1!(v, Quick, ["C30"], sink_vector, [5 8]);
    reg2!(v, Quick, ["C30"], sink_matrix, [(3 3) (2 4)]);
    reg1!(v, Quick, ["C29"], nonzero_vector, [7 8]);
    reg1!(v, Quick, ["C29"], vector_distribution, [17 33]);
    reg2!(v, Quick, ["C29"], matrix_distribution, [(6 6) (1 9) (9 1)]);
}
