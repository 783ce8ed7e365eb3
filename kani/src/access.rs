//! Checked access and checked construction (C04).  `_mp_`: every execution must panic.
use crate::*;
use core::convert::TryFrom;
use vecmat::vector::GroupIter;
use vecmat::{Matrix, Vector};

fn vec_of<const N: usize>(s: &mut impl Src) -> ([u16; N], Vector<u16, N>) {
    let a: [u16; N] = core::array::from_fn(|_| s.u16());
    (a, Vector::from_array(a))
}
fn mat_of<const M: usize, const N: usize>(s: &mut impl Src) -> ([[u16; N]; M], Matrix<u16, M, N>) {
    let a: [[u16; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u16()));
    (a, Matrix::from_array_of_arrays(a))
}
/// The ways to reach one element of a vector.
fn reach<const N: usize>(v: &mut Vector<u16, N>, w: u8, i: usize) -> u16 {
    match w {
        0 => v[i],
        _ => *(&mut v[i]),
    }
}
/// The ways to reach one element of a matrix.
fn mreach<const M: usize, const N: usize>(m: &mut Matrix<u16, M, N>, w: u8, i: usize, j: usize) -> u16 {
    match w {
        0 => m[(i, j)],
        1 => *(&mut m[(i, j)]),
        2 => m.row(i)[j],
        3 => m.row_ref(i)[j],
        4 => m.row_mut(i)[j],
        _ => m.col(j)[i],
    }
}
fn index_in<const N: usize>(s: &mut impl Src) {
    let (mut a, mut v) = vec_of::<N>(s);
    let i = s.usize();
    s.assume(i < N);
    ck!(v[i] == a[i], "v[i]");
    ck!(*(&mut v[i]) == a[i], "&mut v[i]");
    let x = s.u16();
    v[i] = x;
    a[i] = x;
    let k = s.usize();
    s.assume(k < N);
    ck!(v[k] == a[k], "v[i] = x changes that element alone");
}
fn index_out<const N: usize>(s: &mut impl Src, w: u8) {
    let (_, mut v) = vec_of::<N>(s);
    let i = s.usize();
    s.assume(i >= N);
    reach(&mut v, w, i);
    sentinel!();
}
fn mindex_in<const M: usize, const N: usize>(s: &mut impl Src) {
    let (mut a, mut m) = mat_of::<M, N>(s);
    let (i, j) = (s.usize(), s.usize());
    s.assume(i < M && j < N);
    ck!(m[(i, j)] == a[i][j], "m[(i, j)]");
    ck!(*(&mut m[(i, j)]) == a[i][j], "&mut m[(i, j)]");
    ck!(m.row(i)[j] == a[i][j], "row");
    ck!(m.row_ref(i)[j] == a[i][j], "row_ref");
    ck!(m.row_mut(i)[j] == a[i][j], "row_mut");
    ck!(m.col(j)[i] == a[i][j], "col");
    let x = s.u16();
    if s.bool() {
        m[(i, j)] = x;
    } else {
        m.row_mut(i)[j] = x;
    }
    a[i][j] = x;
    let (k, l) = (s.usize(), s.usize());
    s.assume(k < M && l < N);
    ck!(m[(k, l)] == a[k][l], "m[(i, j)] = x changes that element alone");
}
fn mindex_out<const M: usize, const N: usize>(s: &mut impl Src, w: u8) {
    let (_, mut m) = mat_of::<M, N>(s);
    let (i, j) = (s.usize(), s.usize());
    s.assume(i >= M || j >= N);
    mreach(&mut m, w, i, j);
    sentinel!();
}
/// A row or column outside the matrix must panic even though no element of it is used.
fn line_out<const M: usize, const N: usize>(s: &mut impl Src, w: u8) {
    let (_, mut m) = mat_of::<M, N>(s);
    let i = s.usize();
    s.assume(i >= if w == 3 { N } else { M });
    match w {
        0 => drop(m.row(i)),
        1 => drop(m.row_ref(i)),
        2 => drop(m.row_mut(i)),
        _ => drop(m.col(i)),
    }
    sentinel!();
}
/// A number.  In `cofactor_out` the first operation on one ends the symbolic execution: by then the
/// indices have been accepted.
#[derive(Clone, Copy, PartialEq)]
struct Z(i64);
static mut CUT: bool = false;
fn cut() {
    #[cfg(kani)]
    if unsafe { (&raw const CUT).read() } {
        sentinel!();
        kani::assume(false);
    }
}
fn arm() {
    unsafe { (&raw mut CUT).write(true) }
}
macro_rules! zop {
    ($($t:ident $f:ident;)*) => {$(
        impl core::ops::$t for Z {
            type Output = Z;
            fn $f(self, r: Z) -> Z {
                cut();
                Z(self.0.$f(r.0))
            }
        }
    )*};
}
zop! { Add add; Sub sub; Mul mul; Div div; Rem rem; }
impl core::ops::Neg for Z {
    type Output = Z;
    fn neg(self) -> Z {
        cut();
        Z(-self.0)
    }
}
impl num_traits::Zero for Z {
    fn zero() -> Z {
        cut();
        Z(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num_traits::One for Z {
    fn one() -> Z {
        cut();
        Z(1)
    }
}
impl num_traits::Num for Z {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Z, ()> {
        Err(())
    }
}
fn square<const N: usize>() -> Matrix<Z, N, N> {
    let mut k = 1;
    Matrix::init(|| {
        k = (k * 5 + 3) % 17;
        Z(k)
    })
}
fn cofactor_in<const N: usize>(s: &mut impl Src) {
    let (i, j) = (s.usize(), s.usize());
    s.assume(i < N && j < N);
    let m = square::<N>();
    for k in 0..N {
        for l in 0..N {
            if i == k && j == l {
                m.cofactor(k, l);
            }
        }
    }
}
fn cofactor_out<const N: usize>(s: &mut impl Src) {
    let (i, j) = (s.usize(), s.usize());
    s.assume(i >= N || j >= N);
    let m = square::<N>();
    arm();
    m.cofactor(i, j);
    sentinel!();
}
/// Slices of every length up to eight (and of no element at all).
fn slice<const N: usize>(s: &mut impl Src) {
    let a: [u16; 8] = core::array::from_fn(|_| s.u16());
    let k = s.upto(8);
    match Vector::<u16, N>::try_from(&a[..k]) {
        Ok(v) => {
            ck!(k == N, "only a slice of N elements is accepted");
            for i in 0..N {
                ck!(v[i] == a[i], "element i of the slice");
            }
        }
        Err(()) => ck!(k != N, "a slice of N elements is accepted"),
    }
}
fn mslice<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [u16; 8] = core::array::from_fn(|_| s.u16());
    let k = s.upto(8);
    match Matrix::<u16, M, N>::try_from(&a[..k]) {
        Ok(m) => {
            ck!(k == M * N, "only a slice of M * N elements is accepted");
            for i in 0..M {
                for j in 0..N {
                    ck!(m[(i, j)] == a[i * N + j], "element (i, j) of the slice");
                }
            }
        }
        Err(()) => ck!(k != M * N, "a slice of M * N elements is accepted"),
    }
}
fn mrows<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [Vector<u16, N>; 5] = core::array::from_fn(|_| vec_of::<N>(s).1);
    let k = s.upto(5);
    match Matrix::<u16, M, N>::try_from(&a[..k]) {
        Ok(m) => {
            ck!(k == M, "only a slice of M rows is accepted");
            for i in 0..M {
                for j in 0..N {
                    ck!(m[(i, j)] == a[i][j], "element (i, j) of the rows");
                }
            }
        }
        Err(()) => ck!(k != M, "a slice of M rows is accepted"),
    }
}
struct Count {
    used: usize,
    len: usize,
}
impl Iterator for Count {
    type Item = u16;
    fn next(&mut self) -> Option<u16> {
        if self.used == self.len {
            return None;
        }
        self.used += 1;
        Some(self.used as u16 * 3)
    }
}
/// The source may be of any length at all.
fn iter<const N: usize>(s: &mut impl Src) {
    let len = s.usize();
    let mut it = Count { used: 0, len };
    let r = Vector::<u16, N>::try_from_iter(&mut it);
    ck!(r.is_some() == (len >= N), "Some exactly when the iterator yields N items");
    ck!(it.used == if len < N { len } else { N }, "exactly the items used are consumed");
    if let Some(v) = r {
        for i in 0..N {
            ck!(v[i] == (i as u16 + 1) * 3, "item i");
        }
    }
}
fn miter<const M: usize, const N: usize>(s: &mut impl Src) {
    let len = s.usize();
    let mut it = Count { used: 0, len };
    let r = Matrix::<u16, M, N>::try_from_iter(&mut it);
    ck!(r.is_some() == (len >= M * N), "Some exactly when the iterator yields M * N items");
    ck!(it.used == if len < M * N { len } else { M * N }, "exactly the items used are consumed");
    if let Some(m) = r {
        for i in 0..M {
            for j in 0..N {
                ck!(m[(i, j)] == ((i * N + j) as u16 + 1) * 3, "item (i, j)");
            }
        }
    }
}
fn mrow_iter<const M: usize, const N: usize>(s: &mut impl Src) {
    let len = s.usize();
    let mut used = 0;
    let r = Matrix::<usize, M, N>::try_from_iter_of_vectors(core::iter::from_fn(|| {
        if used == len {
            return None;
        }
        used += 1;
        Some(Vector::fill(used))
    }));
    ck!(r.is_some() == (len >= M), "Some exactly when the iterator yields M rows");
    ck!(used == if len < M { len } else { M }, "exactly the rows used are consumed");
    if let Some(m) = r {
        for i in 0..M {
            for j in 0..N {
                ck!(m[(i, j)] == i + 1, "row i");
            }
        }
    }
}
/// A group is given exactly while N more items remain.
fn group<const N: usize>(s: &mut impl Src) {
    let len = s.usize();
    let mut it = Count { used: 0, len };
    {
        let mut g = GroupIter::<_, N>::new(&mut it);
        ck!(g.next().is_some() == (len >= N), "first group");
        if len >= N {
            ck!(g.next().is_some() == (len - N >= N), "second group");
        }
    }
    ck!(it.used == if len < 2 * N { len } else { 2 * N }, "exactly the items used are consumed");
}

harnesses! {
    5 c04q_index_1 = index_in::<1>;
    5 c04q_index_3 = index_in::<3>;
    7 c04q_index_5 = index_in::<5>;
    5 c04q_mp_index_1 = |s| index_out::<1>(s, 0);
    5 c04q_mp_index_mut_1 = |s| index_out::<1>(s, 1);
    5 c04q_mp_index_3 = |s| index_out::<3>(s, 0);
    5 c04q_mp_index_mut_3 = |s| index_out::<3>(s, 1);
    6 c04q_mindex_2_3 = mindex_in::<2, 3>;
    6 c04q_mindex_3_2 = mindex_in::<3, 2>;
    6 c04q_mindex_1_4 = mindex_in::<1, 4>;
    6 c04q_mindex_4_1 = mindex_in::<4, 1>;
    6 c04q_mindex_3_3 = mindex_in::<3, 3>;
    6 c04q_mp_mindex_2_3 = |s| mindex_out::<2, 3>(s, 0);
    6 c04q_mp_mindex_mut_2_3 = |s| mindex_out::<2, 3>(s, 1);
    6 c04q_mp_mrow_2_3 = |s| mindex_out::<2, 3>(s, 2);
    6 c04q_mp_mrow_ref_2_3 = |s| mindex_out::<2, 3>(s, 3);
    6 c04q_mp_mrow_mut_2_3 = |s| mindex_out::<2, 3>(s, 4);
    6 c04q_mp_mcol_2_3 = |s| mindex_out::<2, 3>(s, 5);
    6 c04q_mp_mindex_3_2 = |s| mindex_out::<3, 2>(s, 0);
    6 c04q_mp_mindex_mut_3_2 = |s| mindex_out::<3, 2>(s, 1);
    6 c04q_mp_mrow_3_2 = |s| mindex_out::<3, 2>(s, 2);
    6 c04q_mp_mrow_ref_3_2 = |s| mindex_out::<3, 2>(s, 3);
    6 c04q_mp_mrow_mut_3_2 = |s| mindex_out::<3, 2>(s, 4);
    6 c04q_mp_mcol_3_2 = |s| mindex_out::<3, 2>(s, 5);
    6 c04q_mp_row_3_2 = |s| line_out::<3, 2>(s, 0);
    6 c04q_mp_row_ref_3_2 = |s| line_out::<3, 2>(s, 1);
    6 c04q_mp_row_mut_3_2 = |s| line_out::<3, 2>(s, 2);
    6 c04q_mp_col_3_2 = |s| line_out::<3, 2>(s, 3);
    6 c04q_mp_row_2_3 = |s| line_out::<2, 3>(s, 0);
    6 c04q_mp_row_ref_2_3 = |s| line_out::<2, 3>(s, 1);
    6 c04q_mp_row_mut_2_3 = |s| line_out::<2, 3>(s, 2);
    6 c04q_mp_col_2_3 = |s| line_out::<2, 3>(s, 3);
    4 c04q_cofactor_1 = cofactor_in::<1>;
    4 c04q_cofactor_2 = cofactor_in::<2>;
    5 c04q_cofactor_3 = cofactor_in::<3>;
    4 c04q_mp_cofactor_1 = cofactor_out::<1>;
    4 c04q_mp_cofactor_2 = cofactor_out::<2>;
    5 c04q_mp_cofactor_3 = cofactor_out::<3>;
    10 c04q_slice_1 = slice::<1>;
    10 c04q_slice_3 = slice::<3>;
    10 c04q_slice_5 = slice::<5>;
    10 c04q_mslice_2_3 = mslice::<2, 3>;
    10 c04q_mslice_3_2 = mslice::<3, 2>;
    10 c04q_mslice_1_4 = mslice::<1, 4>;
    10 c04q_mslice_3_1 = mslice::<3, 1>;
    8 c04q_mrows_2_3 = mrows::<2, 3>;
    8 c04q_mrows_3_2 = mrows::<3, 2>;
    8 c04q_mrows_4_1 = mrows::<4, 1>;
    8 c04q_mrows_1_4 = mrows::<1, 4>;
    8 c04q_iter_1 = iter::<1>;
    8 c04q_iter_4 = iter::<4>;
    9 c04q_miter_2_3 = miter::<2, 3>;
    9 c04q_miter_3_1 = miter::<3, 1>;
    9 c04q_miter_1_3 = miter::<1, 3>;
    8 c04q_mrow_iter_2_3 = mrow_iter::<2, 3>;
    8 c04q_mrow_iter_4_1 = mrow_iter::<4, 1>;
    8 c04q_group_1 = group::<1>;
    8 c04q_group_3 = group::<3>;
    14 c04t_index_12 = index_in::<12>;
    12 c04t_mp_index_9 = |s| index_out::<9>(s, 0);
    8 c04t_mindex_4_5 = mindex_in::<4, 5>;
    8 c04t_mindex_5_3 = mindex_in::<5, 3>;
    8 c04t_mp_mindex_4_5 = |s| mindex_out::<4, 5>(s, 0);
    8 c04t_mp_mindex_mut_4_5 = |s| mindex_out::<4, 5>(s, 1);
    8 c04t_mp_mrow_ref_4_5 = |s| mindex_out::<4, 5>(s, 3);
    8 c04t_mp_mcol_4_5 = |s| mindex_out::<4, 5>(s, 5);
    8 c04t_mp_mcol_5_3 = |s| mindex_out::<5, 3>(s, 5);
    8 c04t_mp_mrow_1_1 = |s| mindex_out::<1, 1>(s, 2);
    20 c04t_cofactor_4 = cofactor_in::<4>;
    20 c04t_mp_cofactor_4 = cofactor_out::<4>;
    10 c04t_slice_8 = slice::<8>;
    10 c04t_mslice_2_4 = mslice::<2, 4>;
    10 c04t_mslice_4_2 = mslice::<4, 2>;
    10 c04t_mslice_1_1 = mslice::<1, 1>;
    8 c04t_mrows_5_2 = mrows::<5, 2>;
    14 c04t_iter_10 = iter::<10>;
    12 c04t_miter_3_3 = miter::<3, 3>;
    12 c04t_miter_4_2 = miter::<4, 2>;
    8 c04t_mrow_iter_3_4 = mrow_iter::<3, 4>;
    10 c04t_group_5 = group::<5>;
}
