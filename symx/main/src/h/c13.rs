//! Determinant, cofactors, adjugate, inverse (C13, C14).
use crate::util::*;
use symcore::Native;

/// Signed sum over permutations.
fn leibniz<S: Sc>(a: &[Vec<S>]) -> S {
    let n = a.len();
    fn go<S: Sc>(a: &[Vec<S>], row: usize, used: &mut Vec<usize>, out: &mut S) {
        let n = a.len();
        if row == n {
            let mut inv = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if used[i] > used[j] {
                        inv += 1;
                    }
                }
            }
            let p = (0..n).fold(S::one(), |p, i| p * a[i][used[i]]);
            *out = if inv % 2 == 0 { *out + p } else { *out - p };
            return;
        }
        for c in 0..n {
            if !used.contains(&c) {
                used.push(c);
                go(a, row + 1, used, out);
                used.pop();
            }
        }
    }
    let mut out = S::zero();
    go(a, 0, &mut Vec::with_capacity(n), &mut out);
    out
}
fn rows<S: Copy, const N: usize>(a: &[[S; N]; N]) -> Vec<Vec<S>> {
    a.iter().map(|r| r.to_vec()).collect()
}
fn minor<S: Copy, const N: usize>(a: &[[S; N]; N], i: usize, j: usize) -> Vec<Vec<S>> {
    (0..N).filter(|r| *r != i).map(|r| (0..N).filter(|c| *c != j).map(|c| a[r][c]).collect()).collect()
}
fn det_leibniz<S: Sc, const N: usize>() {
    let a = arr2::<S, N, N>("a");
    S::prove_eq("det", Matrix::from_array_of_arrays(a).det(), leibniz(&rows(&a)));
}
fn det_algebra<S: Sc, const N: usize>() {
    let (a, b, r, s) = (arr2::<S, N, N>("a"), mat::<S, N, N>("b"), arr::<S, N>("r"), S::var("s"));
    let m = Matrix::from_array_of_arrays(a);
    let _ = b;
    S::prove_eq("transpose", m.transpose().det(), m.det());
    S::prove_eq("identity", Matrix::<S, N, N>::one().det(), S::one());
    S::prove_eq("diagonal", Matrix::diagonal(Vector::from_array(r)).det(), r.iter().fold(S::one(), |p, x| p * *x));
    for i in 0..N {
        let mut x = a;
        x[i] = core::array::from_fn(|j| a[i][j] * s + r[j]);
        let mut y = a;
        y[i] = r;
        S::prove_eq(
            &format!("linear in row {}", i),
            Matrix::from_array_of_arrays(x).det(),
            s * m.det() + Matrix::from_array_of_arrays(y).det(),
        );
        for j in i + 1..N {
            let mut x = a;
            x.swap(i, j);
            S::prove_eq("alternating", Matrix::from_array_of_arrays(x).det(), -m.det());
            x[i] = x[j];
            S::prove_eq("equal rows", Matrix::from_array_of_arrays(x).det(), S::zero());
        }
    }
}
fn det_product<S: Sc, const N: usize>() {
    let (a, b) = (mat::<S, N, N>("a"), mat::<S, N, N>("b"));
    S::prove_eq("multiplicative", a.dot(b).det(), a.det() * b.det());
}
/// No division is executed, so the identities hold over the integers as well.
fn division_free<S: Sc, const N: usize>() {
    let m = mat::<S, N, N>("a");
    let n = S::divisions();
    S::prove_eq("det", m.det(), m.det());
    S::check("det divides nothing", S::divisions() == n);
}
fn division_free_adj<S: Sc, const N: usize>() {
    let m = mat::<S, N, N>("a");
    let n = S::divisions();
    mmeq("adj", m.adj(), m.adj());
    S::check("adj divides nothing", S::divisions() == n);
}
/// The same on machine integers.
fn on_integers<const N: usize>(adj: bool) -> Native {
    for k in 0..300 {
        let a: [[i64; N]; N] =
            core::array::from_fn(|i| core::array::from_fn(|j| (symcore::scal::salted(&format!("a{}_{}", i, j), k) as i64) % 10));
        let m = Matrix::from_array_of_arrays(a);
        let bad = std::panic::catch_unwind(|| {
            if !adj {
                let (x, y) = (m.det(), leibniz_i(&rows(&a)));
                return (x != y).then(|| format!("det of {:?} is {}, not {}", a, x, y));
            }
            let x = m.adj().into_array_of_arrays();
            for i in 0..N {
                for j in 0..N {
                    let c = leibniz_i(&minor(&a, i, j)) * if (i + j) % 2 == 0 { 1 } else { -1 };
                    if x[j][i] != c {
                        return Some(format!("adj of {:?} has {} at ({},{}), not {}", a, x[j][i], j, i, c));
                    }
                }
            }
            None
        })
        .unwrap_or_else(|_| Some(format!("panic on {:?}", a)));
        if let Some(detail) = bad {
            return Native::Fail { label: "on machine integers".into(), detail };
        }
    }
    Native::Pass(1)
}
fn leibniz_i(a: &[Vec<i64>]) -> i64 {
    if a.is_empty() {
        return 1;
    }
    (0..a.len())
        .map(|j| {
            let b: Vec<Vec<i64>> = a[1..].iter().map(|r| (0..r.len()).filter(|c| *c != j).map(|c| r[c]).collect()).collect();
            a[0][j] * leibniz_i(&b) * if j % 2 == 0 { 1 } else { -1 }
        })
        .sum()
}
fn mat_cofactors<S: Sc, const N: usize>() {
    let a = arr2::<S, N, N>("a");
    let m = Matrix::from_array_of_arrays(a);
    let adj = m.adj().into_array_of_arrays();
    for i in 0..N {
        for j in 0..N {
            let c = leibniz(&minor(&a, i, j));
            let c = if (i + j) % 2 == 0 { c } else { -c };
            S::prove_eq(&format!("cofactor({},{})", i, j), m.cofactor(i, j), c);
            S::prove_eq(&format!("adj[{},{}]", j, i), adj[j][i], c);
        }
    }
}
fn mat_adjugate<S: Sc, const N: usize>() {
    let m = mat::<S, N, N>("a");
    let d = m.det();
    mmeq("a.dot(adj)", m.dot(m.adj()), Matrix::one() * d);
    mmeq("adj.dot(a)", m.adj().dot(m), Matrix::one() * d);
}
fn mat_inverse<S: Sc, const N: usize>() {
    let m = mat::<S, N, N>("a");
    S::assume(ne(m.det(), S::zero()));
    let i = m.inv();
    mmeq("a.dot(inv)", m.dot(i), Matrix::one());
    mmeq("inv.dot(a)", i.dot(m), Matrix::one());
    mmeq("Inv trait", Inv::inv(m), i);
}
fn mat_inverse_algebra<S: Sc, const N: usize>() {
    let (a, b) = (mat::<S, N, N>("a"), mat::<S, N, N>("b"));
    S::assume(ne(a.det(), S::zero()));
    S::assume(ne(b.det(), S::zero()));
    mmeq("twice", a.inv().inv(), a);
    mmeq("product", a.dot(b).inv(), b.inv().dot(a.inv()));
}
macro_rules! ints {
    ($v:expr, $t:expr, $p:literal, $f:ident, $adj:literal, [$($n:literal)*]) => { $(
        $v.push(H {
            name: concat!(stringify!($f), "_", stringify!($n)).to_string(),
            props: &[$p],
            tier: $t,
            sym: || $f::<F64, $n>(),
            nat: |_| on_integers::<$n>($adj),
        });
    )* };
}
pub fn reg(v: &mut Vec<H>) {
    ints!(v, Quick, "C13", division_free, false, [1 2 3 4 5]);
    ints!(v, Quick, "C14", division_free_adj, true, [2 3 4]);
    reg1!(v, Quick, ["C13"], det_leibniz, [1 2 3 4 5 6]);
    reg1!(v, Quick, ["C13"], det_algebra, [1 2 3 4]);
    reg1!(v, Quick, ["C13"], det_product, [1 2 3]);
    reg1!(v, Quick, ["C14"], mat_cofactors, [1 2 3 4 5]);
    reg1!(v, Quick, ["C14"], mat_adjugate, [1 2 3 4]);
    reg1!(v, Quick, ["C14"], mat_inverse, [1 2 3 4]);
    reg1!(v, Quick, ["C14"], mat_inverse_algebra, [1 2]);
    reg1!(v, Quick, ["C13"], det_leibniz, [7]);
    reg1!(v, Quick, ["C13"], det_product, [4]);
    reg1!(v, Quick, ["C14"], mat_cofactors, [6]);
    reg1!(v, Quick, ["C14"], mat_adjugate, [5]);
    reg1!(v, Quick, ["C14"], mat_inverse_algebra, [3]);
    reg1!(v, Quick, ["C13"], det_algebra, [5 6]);
    reg1!(v, Thorough, ["C14"], mat_cofactors, [7]);
    reg1!(v, Quick, ["C14"], mat_adjugate, [6]);
    reg1!(v, Thorough, ["C13"], det_algebra, [7]);
    reg1!(v, Quick, ["C13"], det_product, [5]);
    reg1!(v, Thorough, ["C14"], mat_adjugate, [7]);
    reg1!(v, Quick, ["C14"], mat_inverse, [5 6]);
    reg1!(v, Thorough, ["C14"], mat_inverse, [7]);
}
