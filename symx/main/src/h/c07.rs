//! Bitwise, comparison, boolean and floor-division lifts (C07).
use crate::tok::{Tok, TN, TS};
use crate::util::*;

fn tarr<T: Tok, const N: usize>(n: &str) -> [T; N] {
    core::array::from_fn(|i| T::var(&format!("{}{}", n, i)))
}
fn tarr2<T: Tok, const M: usize, const N: usize>(n: &str) -> [[T; N]; M] {
    core::array::from_fn(|i| core::array::from_fn(|j| T::var(&format!("{}{}_{}", n, i, j))))
}
fn teq<T: Tok, const N: usize>(l: &str, a: Vector<T, N>, b: [T; N]) {
    let a = a.into_array();
    for i in 0..N {
        T::prove_eq(&format!("{} [{}]", l, i), a[i], b[i]);
    }
}
fn tmeq<T: Tok, const M: usize, const N: usize>(l: &str, a: Matrix<T, M, N>, b: [[T; N]; M]) {
    let a = a.into_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            T::prove_eq(&format!("{} [{},{}]", l, i, j), a[i][j], b[i][j]);
        }
    }
}
fn vec_bits<T: Tok, const N: usize>() {
    let (a, b) = (tarr::<T, N>("a"), tarr::<T, N>("b"));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let f = |g: &dyn Fn(T, T) -> T| -> [T; N] { core::array::from_fn(|i| g(a[i], b[i])) };
    teq("!a", !va, a.map(|x| !x));
    teq("a&b", va & vb, f(&|x, y| x & y));
    teq("a|b", va | vb, f(&|x, y| x | y));
    teq("a^b", va ^ vb, f(&|x, y| x ^ y));
    let mut x = va;
    x &= vb;
    teq("a&=b", x, f(&|x, y| x & y));
    let mut x = va;
    x |= vb;
    teq("a|=b", x, f(&|x, y| x | y));
    let mut x = va;
    x ^= vb;
    teq("a^=b", x, f(&|x, y| x ^ y));
}
fn vec_floor_div<T: Tok, const N: usize>() {
    let (a, b) = (tarr::<T, N>("a"), tarr::<T, N>("b"));
    for x in b {
        x.assume_nonzero();
    }
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let f = |g: &dyn Fn(T, T) -> T| -> [T; N] { core::array::from_fn(|i| g(a[i], b[i])) };
    let (d, m) = (f(&|x, y| x.div_floor(&y)), f(&|x, y| x.mod_floor(&y)));
    teq("div_floor", va.div_floor(vb), d);
    teq("mod_floor", va.mod_floor(vb), m);
    let (p, q) = va.div_mod_floor(vb);
    teq("div_mod_floor.0", p, d);
    teq("div_mod_floor.1", q, m);
}
fn mat_bits<T: Tok, const M: usize, const N: usize>() {
    let (a, b) = (tarr2::<T, M, N>("a"), tarr2::<T, M, N>("b"));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let f = |g: &dyn Fn(T, T) -> T| -> [[T; N]; M] { core::array::from_fn(|i| core::array::from_fn(|j| g(a[i][j], b[i][j]))) };
    tmeq("!a", !va, f(&|x, _| !x));
    tmeq("a&b", va & vb, f(&|x, y| x & y));
    tmeq("a|b", va | vb, f(&|x, y| x | y));
    tmeq("a^b", va ^ vb, f(&|x, y| x ^ y));
    let mut x = va;
    x &= vb;
    tmeq("a&=b", x, f(&|x, y| x & y));
    let mut x = va;
    x |= vb;
    tmeq("a|=b", x, f(&|x, y| x | y));
    let mut x = va;
    x ^= vb;
    tmeq("a^=b", x, f(&|x, y| x ^ y));
}
fn mat_floor_div<T: Tok, const M: usize, const N: usize>() {
    let (a, b) = (tarr2::<T, M, N>("a"), tarr2::<T, M, N>("b"));
    for x in b.iter().flatten() {
        x.assume_nonzero();
    }
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let f = |g: &dyn Fn(T, T) -> T| -> [[T; N]; M] { core::array::from_fn(|i| core::array::from_fn(|j| g(a[i][j], b[i][j]))) };
    let (d, m) = (f(&|x, y| x.div_floor(&y)), f(&|x, y| x.mod_floor(&y)));
    tmeq("div_floor", va.div_floor(vb), d);
    tmeq("mod_floor", va.mod_floor(vb), m);
    let (p, q) = va.div_mod_floor(vb);
    tmeq("div_mod_floor.0", p, d);
    tmeq("div_mod_floor.1", q, m);
}

fn iff_each<S: Scal, const N: usize>(l: &str, r: [bool; N], c: impl Fn(usize) -> Cond<S>) {
    for i in 0..N {
        S::prove_iff(&format!("{} [{}]", l, i), r[i], c(i));
    }
}
/// Comparisons of one component each, with the others free.
fn vec_cmp<S: Sc, const N: usize>() {
    let (a, b) = (arr::<S, N>("a"), arr::<S, N>("b"));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    match choose::<S>("op", 6) {
        0 => iff_each("veq", va.veq(vb).into_array(), |i| eq(a[i], b[i])),
        1 => iff_each("vne", va.vne(vb).into_array(), |i| ne(a[i], b[i])),
        2 => iff_each("vlt", va.vlt(vb).into_array(), |i| lt(a[i], b[i])),
        3 => iff_each("vle", va.vle(vb).into_array(), |i| le(a[i], b[i])),
        4 => iff_each("vgt", va.vgt(vb).into_array(), |i| lt(b[i], a[i])),
        _ => iff_each("vge", va.vge(vb).into_array(), |i| le(b[i], a[i])),
    }
}
fn mat_cmp<S: Sc, const M: usize, const N: usize>() {
    let (a, b) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let op = choose::<S>("op", 6);
    let (l, r) = match op {
        0 => ("veq", va.veq(vb)),
        1 => ("vne", va.vne(vb)),
        2 => ("vlt", va.vlt(vb)),
        3 => ("vle", va.vle(vb)),
        4 => ("vgt", va.vgt(vb)),
        _ => ("vge", va.vge(vb)),
    };
    let r = r.into_array_of_arrays();
    for i in 0..M {
        iff_each(&format!("{} row {}", l, i), r[i], |j| {
            let (x, y) = (a[i][j], b[i][j]);
            match op {
                0 => eq(x, y),
                1 => ne(x, y),
                2 => lt(x, y),
                3 => le(x, y),
                4 => lt(y, x),
                _ => le(y, x),
            }
        });
    }
}
fn vec_eq<S: Sc, const N: usize>() {
    let (a, b) = (arr::<S, N>("a"), arr::<S, N>("b"));
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let c = all((0..N).map(|i| eq(a[i], b[i])).collect());
    if choose::<S>("op", 2) == 0 {
        S::prove_iff("==", va == vb, c);
    } else {
        S::prove_iff("!=", va != vb, not(c));
    }
}
fn mat_eq<S: Sc, const M: usize, const N: usize>() {
    let (a, b) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let c = all((0..M * N).map(|i| eq(a[i / N][i % N], b[i / N][i % N])).collect());
    if choose::<S>("op", 2) == 0 {
        S::prove_iff("==", va == vb, c);
    } else {
        S::prove_iff("!=", va != vb, not(c));
    }
}
/// any/all on boolean vectors whose bits are the outcomes of free comparisons.
fn vec_any_all<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let b: [bool; N] = a.map(|x| x < S::zero());
    let v = Vector::from_array(b);
    S::prove_iff("any", v.any(), any(a.iter().map(|x| lt(*x, S::zero())).collect()));
    S::prove_iff("all", v.all(), all(a.iter().map(|x| lt(*x, S::zero())).collect()));
}
fn mat_any_all<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let v = Matrix::from_array_of_arrays(a.map(|r| r.map(|x| x < S::zero())));
    S::prove_iff("any", v.any(), any(a.iter().flatten().map(|x| lt(*x, S::zero())).collect()));
    S::prove_iff("all", v.all(), all(a.iter().flatten().map(|x| lt(*x, S::zero())).collect()));
}

/// As above at larger sizes: one component is free, at every position, the others are fixed (to the
/// same relation at all of them, each relation in turn).
fn fixed<S: Sc, const K: usize>() -> ([S; K], [S; K]) {
    let i = choose::<S>("i", K);
    let k = choose::<S>("others", 3) as i64;
    let mut a = [S::k(1); K];
    let b: [S; K] = core::array::from_fn(|j| if j == i { S::var("b") } else { S::k(k) });
    a[i] = S::var("a");
    (a, b)
}
fn one_vec_cmp<S: Sc, const N: usize>() {
    let (a, b) = fixed::<S, N>();
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    iff_each("veq", va.veq(vb).into_array(), |i| eq(a[i], b[i]));
    iff_each("vne", va.vne(vb).into_array(), |i| ne(a[i], b[i]));
    iff_each("vlt", va.vlt(vb).into_array(), |i| lt(a[i], b[i]));
    iff_each("vle", va.vle(vb).into_array(), |i| le(a[i], b[i]));
    iff_each("vgt", va.vgt(vb).into_array(), |i| lt(b[i], a[i]));
    iff_each("vge", va.vge(vb).into_array(), |i| le(b[i], a[i]));
    let m = va.vlt(vb);
    let each = || (0..N).map(|j| lt(a[j], b[j])).collect::<Vec<_>>();
    S::prove_iff("any", m.any(), any(each()));
    S::prove_iff("all", m.all(), all(each()));
    let c = all((0..N).map(|i| eq(a[i], b[i])).collect());
    S::prove_iff("==", va == vb, c.clone());
    S::prove_iff("!=", va != vb, not(c));
}
fn one_mat_cmp<S: Sc, const M: usize, const N: usize, const K: usize>() {
    let (a, b) = fixed::<S, K>();
    let f = |a: [S; K]| -> Matrix<S, M, N> { Matrix::from_array_of_arrays(core::array::from_fn(|i| core::array::from_fn(|j| a[i * N + j]))) };
    let (va, vb) = (f(a), f(b));
    let flat = |m: Matrix<bool, M, N>| -> [bool; K] {
        let m = m.into_array_of_arrays();
        core::array::from_fn(|k| m[k / N][k % N])
    };
    iff_each("veq", flat(va.veq(vb)), |i| eq(a[i], b[i]));
    iff_each("vne", flat(va.vne(vb)), |i| ne(a[i], b[i]));
    iff_each("vlt", flat(va.vlt(vb)), |i| lt(a[i], b[i]));
    iff_each("vle", flat(va.vle(vb)), |i| le(a[i], b[i]));
    iff_each("vgt", flat(va.vgt(vb)), |i| lt(b[i], a[i]));
    iff_each("vge", flat(va.vge(vb)), |i| le(b[i], a[i]));
    let m = va.vlt(vb);
    let each = || (0..K).map(|j| lt(a[j], b[j])).collect::<Vec<_>>();
    S::prove_iff("any", m.any(), any(each()));
    S::prove_iff("all", m.all(), all(each()));
    let c = all((0..K).map(|i| eq(a[i], b[i])).collect());
    S::prove_iff("==", va == vb, c.clone());
    S::prove_iff("!=", va != vb, not(c));
}

macro_rules! regt {
    ($v:expr, $f:ident $(, $g:tt)*) => {
        $v.push(H {
            name: concat!(stringify!($f) $(, "_", stringify!($g))*).to_string(),
            props: &["C07"],
            tier: Quick,
            sym: || $f::<TS $(, $g)*>(),
            nat: |m| run_native(|| $f::<TN $(, $g)*>(), m),
        })
    };
}
pub fn reg(v: &mut Vec<H>) {
    regt!(v, vec_bits, 1);
    regt!(v, vec_bits, 2);
    regt!(v, vec_bits, 3);
    regt!(v, vec_bits, 4);
    regt!(v, vec_bits, 7);
    regt!(v, vec_bits, 5);
    regt!(v, vec_bits, 9);
    regt!(v, vec_floor_div, 5);
    regt!(v, vec_floor_div, 9);
    regt!(v, mat_bits, 1, 6);
    regt!(v, mat_bits, 6, 1);
    regt!(v, mat_bits, 2, 5);
    regt!(v, mat_bits, 5, 2);
    regt!(v, mat_floor_div, 1, 6);
    regt!(v, mat_floor_div, 6, 1);
    regt!(v, mat_floor_div, 2, 5);
    regt!(v, mat_floor_div, 5, 2);
    regt!(v, vec_floor_div, 1);
    regt!(v, vec_floor_div, 2);
    regt!(v, vec_floor_div, 3);
    regt!(v, vec_floor_div, 4);
    regt!(v, vec_floor_div, 7);
    regt!(v, mat_bits, 1, 1);
    regt!(v, mat_bits, 2, 3);
    regt!(v, mat_bits, 3, 2);
    regt!(v, mat_bits, 3, 3);
    regt!(v, mat_bits, 4, 4);
    regt!(v, mat_floor_div, 1, 1);
    regt!(v, mat_floor_div, 2, 3);
    regt!(v, mat_floor_div, 3, 2);
    regt!(v, mat_floor_div, 3, 3);
    regt!(v, mat_floor_div, 4, 4);
    reg1!(v, Quick, ["C07"], vec_cmp, [1 2 3 4 5 6]);
    reg2!(v, Quick, ["C07"], mat_cmp, [(1 2) (2 1) (2 2) (1 3) (3 1) (1 5) (5 1)]);
    reg2!(v, Thorough, ["C07"], mat_cmp, [(2 3) (3 2)]);
    reg1!(v, Thorough, ["C07"], vec_cmp, [7]);
    reg1!(v, Thorough, ["C07"], vec_eq, [17]);
    reg2!(v, Thorough, ["C07"], mat_eq, [(5 5) (1 17) (17 1)]);
    reg1!(v, Thorough, ["C07"], vec_any_all, [17]);
    reg1!(v, Quick, ["C07"], vec_eq, [1 2 3 4 5 6 7 8 9 10 16]);
    reg2!(v, Quick, ["C07"], mat_eq, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (4 4) (1 6) (6 1) (2 5) (5 2)]);
    reg1!(v, Quick, ["C07"], vec_any_all, [1 2 3 4 5 6 7 8 9]);
    reg2!(v, Quick, ["C07"], mat_any_all, [(1 1) (1 2) (2 1) (2 2) (2 3) (3 2) (1 3) (3 1) (1 4) (4 1) (2 4) (4 2) (1 5) (5 1) (3 3)]);
    regt!(v, vec_bits, 16);
    regt!(v, vec_bits, 33);
    regt!(v, vec_bits, 65);
    regt!(v, vec_floor_div, 16);
    regt!(v, vec_floor_div, 33);
    regt!(v, mat_bits, 5, 5);
    regt!(v, mat_bits, 8, 8);
    regt!(v, mat_bits, 1, 17);
    regt!(v, mat_bits, 17, 1);
    regt!(v, mat_floor_div, 5, 5);
    regt!(v, mat_floor_div, 8, 8);
    reg1!(v, Quick, ["C07"], one_vec_cmp, [7 8 9 12 16 17 33]);
    reg3!(v, Quick, ["C07"], one_mat_cmp, [(2 3 6) (3 2 6) (3 3 9) (3 4 12) (4 3 12) (4 4 16) (2 5 10) (5 2 10) (1 9 9) (9 1 9) (5 5 25) (6 6 36)]);
    reg1!(v, Thorough, ["C07"], one_vec_cmp, [65]);
    reg2!(v, Thorough, ["C07"], mat_any_all, [(2 5) (5 2)]);
}
