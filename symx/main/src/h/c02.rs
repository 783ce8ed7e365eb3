//! Vector and matrix layout: construction, conversion, access (C02, C03).
use crate::util::*;
use std::convert::{TryFrom, TryInto};

fn same<S: Scal, const N: usize>(l: &str, a: &[S], b: &[S; N]) {
    S::check(&format!("{}: length", l), a.len() == N);
    if a.len() == N {
        for i in 0..N {
            S::prove_eq(&format!("{} [{}]", l, i), a[i], b[i]);
        }
    }
}
fn vec_views<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let v = Vector::from_array(a);
    same("into_array", &v.into_array(), &a);
    same("as_array", v.as_array(), &a);
    same("as_ref", AsRef::<[S; N]>::as_ref(&v), &a);
    let mut m = v;
    same("as_mut_array", m.as_mut_array(), &a);
    let mut m = v;
    same("as_mut", AsMut::<[S; N]>::as_mut(&mut m), &a);
    same("From<[T; N]>", &Vector::from(a).into_array(), &a);
    same("From<&[T; N]>", &Vector::from(&a).into_array(), &a);
    let x: [S; N] = v.into();
    same("Into<[T; N]>", &x, &a);
    let x: &[S; N] = (&v).into();
    same("Into<&[T; N]>", x, &a);
    let mut m = v;
    let x: &mut [S; N] = (&mut m).into();
    same("Into<&mut [T; N]>", x, &a);
    same("index", &(0..N).map(|i| v[i]).collect::<Vec<_>>(), &a);
    let mut m = v;
    same("index_mut", &(0..N).map(|i| *(&mut m[i])).collect::<Vec<_>>(), &a);
    same("iter", &v.iter().cloned().collect::<Vec<_>>(), &a);
    let mut m = v;
    same("iter_mut", &m.iter_mut().map(|x| *x).collect::<Vec<_>>(), &a);
    same("into_iter", &v.into_iter().collect::<Vec<_>>(), &a);
    same("&into_iter", &(&v).into_iter().cloned().collect::<Vec<_>>(), &a);
    same("&mut into_iter", &(&mut m).into_iter().map(|x| *x).collect::<Vec<_>>(), &a);
    same("get_unchecked", &(0..N).map(|i| unsafe { *v.get_unchecked(i) }).collect::<Vec<_>>(), &a);
    same("get_unchecked_mut", &(0..N).map(|i| unsafe { *m.get_unchecked_mut(i) }).collect::<Vec<_>>(), &a);
    same("as_ptr", &(0..N).map(|i| unsafe { *v.as_ptr().add(i) }).collect::<Vec<_>>(), &a);
    same("as_mut_ptr", &(0..N).map(|i| unsafe { *m.as_mut_ptr().add(i) }).collect::<Vec<_>>(), &a);
    let t: Result<Vector<S, N>, ()> = Vector::try_from(&a[..]);
    S::check("try_from(slice)", t.is_ok());
    same("try_from(slice)", &t.unwrap().into_array(), &a);
    let t = Vector::<S, N>::try_from_iter(a.iter().cloned());
    S::check("try_from_iter", t.is_some());
    same("try_from_iter", &t.unwrap().into_array(), &a);
    let ix = Vector::<usize, N>::indices().into_array();
    S::check("indices", (0..N).all(|i| ix[i] == i));
}
fn vec_build<S: Sc, const N: usize>() {
    let (a, s) = (arr::<S, N>("a"), S::var("s"));
    same("new", &Vector::<S, N>::new().into_array(), &[S::default(); N]);
    same("default", &Vector::<S, N>::default().into_array(), &[S::default(); N]);
    same("zero", &Vector::<S, N>::zero().into_array(), &[S::zero(); N]);
    same("fill", &Vector::<S, N>::fill(s).into_array(), &[s; N]);
    let mut k = 0;
    let v = Vector::<S, N>::init(|| {
        k += 1;
        a[(k - 1) % N]
    });
    S::check("init: one call per component", k == N);
    same("init", &v.into_array(), &a);
    let mut u = Vector::<S, N>::uninit();
    for i in 0..N {
        u[i] = std::mem::MaybeUninit::new(a[i]);
    }
    same("uninit/assume_init", &unsafe { u.assume_init() }.into_array(), &a);
}
/// Write a symbolic component through each mutable view.
fn vec_write<S: Sc, const N: usize>() {
    let (a, w) = (arr::<S, N>("a"), S::var("w"));
    let i = choose::<S>("i", N);
    let mut b = a;
    b[i] = w;
    macro_rules! go {
        ($l:literal, $v:ident, $e:expr) => {{
            let mut $v = Vector::from_array(a);
            *$e = w;
            same($l, &$v.into_array(), &b);
        }};
    }
    go!("as_mut_array", v, &mut v.as_mut_array()[i]);
    go!("as_mut", v, &mut AsMut::<[S; N]>::as_mut(&mut v)[i]);
    go!("&mut [T; N]", v, {
        let x: &mut [S; N] = (&mut v).into();
        &mut x[i]
    });
    go!("index_mut", v, &mut v[i]);
    go!("iter_mut", v, v.iter_mut().nth(i).unwrap());
    go!("&mut into_iter", v, (&mut v).into_iter().nth(i).unwrap());
    go!("get_unchecked_mut", v, unsafe { v.get_unchecked_mut(i) });
    go!("as_mut_ptr", v, unsafe { &mut *v.as_mut_ptr().add(i) });
}
macro_rules! named {
    ($f:ident, $N:literal, $tup:ty, ($($t:tt)*), $(($i:tt $n:ident $r:ident $m:ident)),*) => {
        fn $f<S: Sc>() {
            let (a, w) = (arr::<S, $N>("a"), S::var("w"));
            let v = Vector::from_array(a);
            $( S::prove_eq(stringify!($n), v.$n(), a[$i]); )*
            $( S::prove_eq(stringify!($r), *v.$r(), a[$i]); )*
            $( {
                let mut m = v;
                S::prove_eq(stringify!($m), *m.$m(), a[$i]);
                *m.$m() = w;
                let mut b = a;
                b[$i] = w;
                same(concat!("write ", stringify!($m)), &m.into_array(), &b);
            } )*
            let t = v.into_tuple();
            same("into_tuple", &[$( t.$i ),*], &a);
            let t: ($($t)*) = v.into();
            same("Into<tuple>", &[$( t.$i ),*], &a);
            same("from_tuple", &Vector::<S, $N>::from_tuple(($( a[$i], )*)).into_array(), &a);
            same("From<tuple>", &Vector::<S, $N>::from(($( a[$i], )*)).into_array(), &a);
        }
    };
}
named!(vec_named2, 2, (S, S), (S, S), (0 x x_ref x_mut), (1 y y_ref y_mut));
named!(vec_named3, 3, (S, S, S), (S, S, S), (0 x x_ref x_mut), (1 y y_ref y_mut), (2 z z_ref z_mut));
named!(vec_named4, 4, (S, S, S, S), (S, S, S, S), (0 x x_ref x_mut), (1 y y_ref y_mut), (2 z z_ref z_mut), (3 w w_ref w_mut));

// ---------------------------------------------------------------- matrices

fn flat<S: Copy, const M: usize, const N: usize>(a: &[[S; N]; M]) -> Vec<S> {
    a.iter().flatten().cloned().collect()
}
fn msame<S: Scal, const M: usize, const N: usize>(l: &str, x: &[S], a: &[[S; N]; M]) {
    S::check(&format!("{}: length", l), x.len() == M * N);
    if x.len() == M * N {
        for i in 0..M {
            for j in 0..N {
                S::prove_eq(&format!("{} ({},{})", l, i, j), x[i * N + j], a[i][j]);
            }
        }
    }
}
fn mat_views<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let rows: [Vector<S, N>; M] = a.map(Vector::from_array);
    let vv = Vector::from_array(rows);
    let m = Matrix::from_array_of_arrays(a);
    let of = |x: [Vector<S, N>; M]| flat(&x.map(|r| r.into_array()));
    let ofm = |x: Matrix<S, M, N>| flat(&x.into_array_of_arrays());
    msame("into_array_of_arrays", &ofm(m), &a);
    msame("into_array_of_vectors", &of(m.into_array_of_vectors()), &a);
    msame("into_vector_of_vectors", &of(m.into_vector_of_vectors().into_array()), &a);
    msame("from_array_of_vectors", &ofm(Matrix::from_array_of_vectors(rows)), &a);
    msame("from_vector_of_vectors", &ofm(Matrix::from_vector_of_vectors(vv)), &a);
    msame("From<[[T]]>", &ofm(Matrix::from(a)), &a);
    msame("From<[Vector]>", &ofm(Matrix::from(rows)), &a);
    msame("From<Vector<Vector>>", &ofm(Matrix::from(vv)), &a);
    msame("From<&[[T]]>", &ofm(Matrix::from(&a)), &a);
    msame("From<&[Vector]>", &ofm(Matrix::from(&rows)), &a);
    msame("From<&Vector<Vector>>", &ofm(Matrix::from(&vv)), &a);
    let x: [[S; N]; M] = m.into();
    msame("Into<[[T]]>", &flat(&x), &a);
    let x: [Vector<S, N>; M] = m.into();
    msame("Into<[Vector]>", &of(x), &a);
    let x: Vector<Vector<S, N>, M> = m.into();
    msame("Into<Vector<Vector>>", &of(x.into_array()), &a);
    msame("as_array_of_arrays", &flat(m.as_array_of_arrays()), &a);
    msame("as_array_of_vectors", &of(*m.as_array_of_vectors()), &a);
    msame("as_vector_of_vectors", &of(m.as_vector_of_vectors().into_array()), &a);
    msame("as_ref", &of(AsRef::<Vector<Vector<S, N>, M>>::as_ref(&m).into_array()), &a);
    let x: &Vector<Vector<S, N>, M> = (&m).into();
    msame("Into<&Vector<Vector>>", &of(x.into_array()), &a);
    let x: &[[S; N]; M] = (&m).into();
    msame("Into<&[[T]]>", &flat(x), &a);
    let mut w = m;
    msame("as_mut_array_of_arrays", &flat(w.as_mut_array_of_arrays()), &a);
    msame("as_mut_array_of_vectors", &of(*w.as_mut_array_of_vectors()), &a);
    msame("as_mut_vector_of_vectors", &of(w.as_mut_vector_of_vectors().into_array()), &a);
    msame("as_mut", &of(AsMut::<Vector<Vector<S, N>, M>>::as_mut(&mut w).into_array()), &a);
    let x: &mut [[S; N]; M] = (&mut w).into();
    msame("Into<&mut [[T]]>", &flat(x), &a);
    let x: &mut Vector<Vector<S, N>, M> = (&mut w).into();
    msame("Into<&mut Vector<Vector>>", &of(x.into_array()), &a);
    let ij: Vec<(usize, usize)> = (0..M * N).map(|k| (k / N, k % N)).collect();
    let each = |f: &mut dyn FnMut(usize, usize) -> S| ij.iter().map(|&(i, j)| f(i, j)).collect::<Vec<S>>();
    msame("index", &each(&mut |i, j| m[(i, j)]), &a);
    msame("index_mut", &each(&mut |i, j| *(&mut w[(i, j)])), &a);
    msame("row", &each(&mut |i, j| m.row(i).into_array()[j]), &a);
    msame("row_ref", &each(&mut |i, j| m.row_ref(i).into_array()[j]), &a);
    msame("row_mut", &each(&mut |i, j| w.row_mut(i).into_array()[j]), &a);
    msame("col", &each(&mut |i, j| m.col(j).into_array()[i]), &a);
    msame("get_unchecked", &each(&mut |i, j| unsafe { *m.get_unchecked(i, j) }), &a);
    msame("get_unchecked_mut", &each(&mut |i, j| unsafe { *w.get_unchecked_mut(i, j) }), &a);
    msame("as_ptr", &each(&mut |i, j| unsafe { *m.as_ptr().add(i * N + j) }), &a);
    msame("as_mut_ptr", &each(&mut |i, j| unsafe { *w.as_mut_ptr().add(i * N + j) }), &a);
    msame("iter", &m.iter().cloned().collect::<Vec<_>>(), &a);
    msame("iter_mut", &w.iter_mut().map(|x| *x).collect::<Vec<_>>(), &a);
    msame("into_iter", &m.into_iter().collect::<Vec<_>>(), &a);
    msame("&into_iter", &(&m).into_iter().cloned().collect::<Vec<_>>(), &a);
    msame("&mut into_iter", &(&mut w).into_iter().map(|x| *x).collect::<Vec<_>>(), &a);
    let f = flat(&a);
    let t: Result<Matrix<S, M, N>, ()> = f[..].try_into();
    S::check("try_from(&[T])", t.is_ok());
    msame("try_from(&[T])", &ofm(t.unwrap()), &a);
    let t: Result<Matrix<S, M, N>, ()> = rows[..].try_into();
    S::check("try_from(&[Vector])", t.is_ok());
    msame("try_from(&[Vector])", &ofm(t.unwrap()), &a);
    msame("try_from_iter", &ofm(Matrix::try_from_iter(f.into_iter()).unwrap()), &a);
    msame("try_from_iter_of_vectors", &ofm(Matrix::try_from_iter_of_vectors(rows.iter().cloned()).unwrap()), &a);
    let ix = Matrix::<(usize, usize), M, N>::indices().into_array_of_arrays();
    S::check("indices", ij.iter().all(|&(i, j)| ix[i][j] == (i, j)));
}
fn mat_transpose<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let t = Matrix::from_array_of_arrays(a).transpose();
    let b = t.into_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            S::prove_eq(&format!("transpose ({},{})", j, i), b[j][i], a[i][j]);
        }
    }
    meq("transpose twice", t.transpose(), a);
}
fn mat_build<S: Sc, const M: usize, const N: usize>() {
    let (a, s) = (arr2::<S, M, N>("a"), S::var("s"));
    meq("new", Matrix::<S, M, N>::new(), [[S::default(); N]; M]);
    meq("default", Matrix::<S, M, N>::default(), [[S::default(); N]; M]);
    meq("zero", Matrix::<S, M, N>::zero(), [[S::zero(); N]; M]);
    meq("fill", Matrix::<S, M, N>::fill(s), [[s; N]; M]);
    meq("fill_ref", Matrix::<S, M, N>::fill_ref(&s), [[s; N]; M]);
    let mut k = 0;
    let v = Matrix::<S, M, N>::init(|| {
        k += 1;
        a[(k - 1) / N % M][(k - 1) % N]
    });
    S::check("init: one call per element", k == M * N);
    meq("init", v, a);
    let mut u = Matrix::<S, M, N>::uninit();
    for i in 0..M {
        for j in 0..N {
            u[(i, j)] = std::mem::MaybeUninit::new(a[i][j]);
        }
    }
    meq("uninit/assume_init", unsafe { u.assume_init() }, a);
}
fn mat_write<S: Sc, const M: usize, const N: usize>() {
    let (a, w) = (arr2::<S, M, N>("a"), S::var("w"));
    let k = choose::<S>("k", M * N);
    let (i, j) = (k / N, k % N);
    let mut b = a;
    b[i][j] = w;
    macro_rules! go {
        ($l:literal, $v:ident, $e:expr) => {{
            let mut $v = Matrix::from_array_of_arrays(a);
            *$e = w;
            meq($l, $v, b);
        }};
    }
    go!("as_mut_array_of_arrays", v, &mut v.as_mut_array_of_arrays()[i][j]);
    go!("as_mut_array_of_vectors", v, &mut v.as_mut_array_of_vectors()[i].as_mut_array()[j]);
    go!("as_mut_vector_of_vectors", v, &mut v.as_mut_vector_of_vectors().as_mut_array()[i].as_mut_array()[j]);
    go!("as_mut", v, &mut AsMut::<Vector<Vector<S, N>, M>>::as_mut(&mut v).as_mut_array()[i].as_mut_array()[j]);
    go!("&mut [[T]]", v, {
        let x: &mut [[S; N]; M] = (&mut v).into();
        &mut x[i][j]
    });
    go!("&mut Vector<Vector>", v, {
        let x: &mut Vector<Vector<S, N>, M> = (&mut v).into();
        &mut x.as_mut_array()[i].as_mut_array()[j]
    });
    go!("index_mut", v, &mut v[(i, j)]);
    go!("row_mut", v, &mut v.row_mut(i).as_mut_array()[j]);
    go!("get_unchecked_mut", v, unsafe { v.get_unchecked_mut(i, j) });
    go!("as_mut_ptr", v, unsafe { &mut *v.as_mut_ptr().add(k) });
    go!("iter_mut", v, v.iter_mut().nth(k).unwrap());
    go!("&mut into_iter", v, (&mut v).into_iter().nth(k).unwrap());
}
fn mat_diagonal<S: Sc, const N: usize>() {
    let d = arr::<S, N>("d");
    meq("diagonal", Matrix::diagonal(Vector::from_array(d)), core::array::from_fn(|i| core::array::from_fn(|j| if i == j { d[i] } else { S::zero() })));
    meq("one", Matrix::<S, N, N>::one(), core::array::from_fn(|i| core::array::from_fn(|j| if i == j { S::one() } else { S::zero() })));
}

pub fn reg(v: &mut Vec<H>) {
    reg1!(v, Quick, ["C02"], vec_views, [1 2 3 4 5 6 7 8 9 10 12 16 17 32]);
    reg1!(v, Quick, ["C02"], vec_build, [1 2 3 4 5 6 7 8 9 10 12 16 17]);
    reg1!(v, Quick, ["C02"], vec_write, [1 2 3 4 5 6 7 8 9 10 16 17]);
    reg!(v, Quick, ["C02"], vec_named2);
    reg!(v, Quick, ["C02"], vec_named3);
    reg!(v, Quick, ["C02"], vec_named4);
    reg2!(v, Quick, ["C03"], mat_views, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6) (6 6) (3 17) (17 3)]);
    reg2!(v, Quick, ["C03"], mat_build, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6)]);
    reg2!(v, Quick, ["C03"], mat_write, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6)]);
    reg2!(v, Quick, ["C03"], mat_transpose, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1) (1 9) (9 1) (2 9) (9 2) (6 5) (5 6) (6 6) (5 7) (8 8) (17 3) (3 17) (1 33) (33 1) (16 16)]);
    reg1!(v, Quick, ["C03"], mat_diagonal, [1 2 3 4 5 6 7 8 9]);
    reg1!(v, Quick, ["C02"], vec_views, [33 64]);
    reg1!(v, Quick, ["C02"], vec_build, [33 64]);
    reg1!(v, Quick, ["C02"], vec_write, [33 64]);
    reg2!(v, Quick, ["C03"], mat_views, [(8 8) (9 9) (1 33) (33 1) (16 16)]);
    reg2!(v, Quick, ["C03"], mat_build, [(8 8) (9 9) (1 33) (33 1) (16 16)]);
    reg2!(v, Quick, ["C03"], mat_write, [(8 8) (9 9) (1 17) (17 1)]);
    reg2!(v, Quick, ["C03"], mat_transpose, [(32 32) (9 17) (17 9)]);
    reg1!(v, Quick, ["C03"], mat_diagonal, [16 17 33]);
    reg1!(v, Quick, ["C02"], vec_views, [11 13 15 24 65]);
    reg1!(v, Quick, ["C02"], vec_build, [11 13 15 24 65]);
    reg1!(v, Quick, ["C02"], vec_write, [11 12 15 24 65]);
    reg2!(v, Quick, ["C03"], mat_views, [(7 7) (1 65) (65 1) (4 8) (8 4)]);
    reg2!(v, Quick, ["C03"], mat_build, [(6 6) (7 7) (4 8) (8 4)]);
    reg2!(v, Quick, ["C03"], mat_write, [(6 6) (7 7) (4 8) (8 4) (1 33) (33 1)]);
}
