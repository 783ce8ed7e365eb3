//! Ownership and initialisation (C01).
use crate::*;
use vecmat::vector::GroupIter;
use vecmat::{Matrix, Vector};

fn fill<const N: usize>() -> Vector<D, N> {
    let mut i = 0;
    Vector::init(|| {
        i += 1;
        D::new(i - 1)
    })
}
fn fillm<const M: usize, const N: usize>() -> Matrix<D, M, N> {
    let mut i = 0;
    Matrix::init(|| {
        i += 1;
        D::new(i - 1)
    })
}
fn in_order<'a>(v: impl Iterator<Item = &'a D>, n: usize) {
    let mut k = 0;
    for x in v {
        ck!(x.id() == k, "element in its place");
        k += 1;
    }
    ck!(k == n, "number of elements");
}

fn init<const N: usize>(_: &mut impl Src) {
    let v = fill::<N>();
    in_order(v.iter(), N);
    drop(v);
    all_dropped();
}
fn minit<const M: usize, const N: usize>(_: &mut impl Src) {
    let v = fillm::<M, N>();
    in_order(v.iter(), M * N);
    drop(v);
    all_dropped();
}
/// A source of any length up to N + 2.
fn from_iter<const N: usize>(s: &mut impl Src) {
    let k = s.upto(N + 2);
    let mut it = Feed { next: 0, left: k };
    let r = Vector::<D, N>::try_from_iter(&mut it);
    ck!(r.is_some() == (k >= N), "Some exactly when there are enough items");
    match r {
        Some(v) => {
            ck!(it.next == N, "exactly the items used were consumed");
            in_order(v.iter(), N);
        }
        None => {
            ck!(it.next == k, "the source was used up");
            all_dropped();
        }
    }
    all_dropped();
}
fn mfrom_iter<const M: usize, const N: usize>(s: &mut impl Src) {
    let k = s.upto(M * N + 2);
    let mut it = Feed { next: 0, left: k };
    let r = Matrix::<D, M, N>::try_from_iter(&mut it);
    ck!(r.is_some() == (k >= M * N), "Some exactly when there are enough items");
    match r {
        Some(v) => {
            ck!(it.next == M * N, "exactly the items used were consumed");
            in_order(v.iter(), M * N);
        }
        None => all_dropped(),
    }
    all_dropped();
}
fn mfrom_rows<const M: usize, const N: usize>(s: &mut impl Src) {
    let k = s.upto(M + 1);
    let mut it = Feed { next: 0, left: k * N };
    let mut rows = 0;
    let r = Matrix::<D, M, N>::try_from_iter_of_vectors(core::iter::from_fn(|| {
        if rows == k {
            return None;
        }
        rows += 1;
        Vector::try_from_iter(&mut it)
    }));
    ck!(r.is_some() == (k >= M), "Some exactly when there are enough rows");
    match r {
        Some(v) => in_order(v.iter(), M * N),
        None => all_dropped(),
    }
    all_dropped();
}
fn into_iter<const N: usize>(s: &mut impl Src) {
    let k = s.upto(N);
    let mut it = fill::<N>().into_iter();
    for i in 0..k {
        ck!(it.next().unwrap().id() == i, "items in order");
    }
    for i in 0..N {
        ck!(is_live(i) == (i >= k), "what is left is still owned by the iterator");
    }
    drop(it);
    all_dropped();
}
fn minto_iter<const M: usize, const N: usize>(s: &mut impl Src) {
    let k = s.upto(M * N);
    let mut it = fillm::<M, N>().into_iter();
    for i in 0..k {
        ck!(it.next().unwrap().id() == i, "items in order");
    }
    for i in 0..M * N {
        ck!(is_live(i) == (i >= k), "what is left is still owned by the iterator");
    }
    drop(it);
    all_dropped();
}
fn group<const N: usize>(s: &mut impl Src) {
    let k = s.upto(2 * N + 1);
    let mut it = GroupIter::<_, N>::new(Feed { next: 0, left: k });
    let mut n = 0;
    while let Some(v) = it.next() {
        for (i, x) in v.iter().enumerate() {
            ck!(x.id() == n * N + i, "groups in order");
        }
        n += 1;
    }
    ck!(n == k / N, "number of groups");
    all_dropped();
}
fn lifts<const N: usize>(_: &mut impl Src) {
    let v = fill::<N>().map(|x| x);
    in_order(v.iter(), N);
    drop(v);
    all_dropped();
}
fn zips<const N: usize>(_: &mut impl Src) {
    let v = fill::<N>();
    let mut i = 16;
    let w = Vector::<D, N>::init(|| {
        i += 1;
        D::new(i - 1)
    });
    let z = v.zip(w);
    for (i, x) in z.iter().enumerate() {
        ck!(x.0.id() == i && x.1.id() == 16 + i, "zip");
    }
    let (v, w) = z.unzip();
    in_order(v.iter(), N);
    for (i, x) in w.iter().enumerate() {
        ck!(x.id() == 16 + i, "unzip");
    }
    drop(w);
    drop(v);
    all_dropped();
}
fn enumerates<const N: usize>(_: &mut impl Src) {
    let e = fill::<N>().enumerate();
    for (i, x) in e.iter().enumerate() {
        ck!(x.0 == i && x.1.id() == i, "enumerate");
    }
    drop(e);
    all_dropped();
}
fn scans<const N: usize>(_: &mut impl Src) {
    let v = fill::<N>().scan(0, |s, x| {
        *s += 1;
        (x, *s as u16)
    });
    let (v, c) = v.unzip();
    for i in 0..N {
        ck!(c[i] as usize == i + 1, "scan state");
    }
    in_order(v.iter(), N);
    drop(v);
    all_dropped();
}
fn for_each<const N: usize>(_: &mut impl Src) {
    let mut k = 0;
    fill::<N>().for_each(|x| {
        ck!(x.id() == k, "for_each");
        k += 1;
    });
    ck!(k == N, "for_each count");
    all_dropped();
}
fn mfor_each<const M: usize, const N: usize>(_: &mut impl Src) {
    let mut k = 0;
    fillm::<M, N>().for_each(|x| {
        ck!(x.id() == k, "for_each");
        k += 1;
    });
    ck!(k == M * N, "for_each count");
    all_dropped();
}
fn folds<const N: usize>(_: &mut impl Src) {
    let last = fill::<N>().fold_first(|a, b| {
        ck!(a.id() + 1 == b.id(), "fold_first order");
        b
    });
    ck!(last.id() == N - 1, "fold_first result");
    drop(last);
    all_dropped();
    let v = fill::<N>();
    let n = v.fold(0, |n, x| {
        ck!(x.id() == n, "fold order");
        n + 1
    });
    ck!(n == N, "fold count");
    all_dropped();
}
fn mlifts<const M: usize, const N: usize>(_: &mut impl Src) {
    let v = fillm::<M, N>().map(|x| x);
    in_order(v.iter(), M * N);
    drop(v);
    all_dropped();
}
fn mzips<const M: usize, const N: usize>(_: &mut impl Src) {
    let v = fillm::<M, N>();
    let mut i = 16;
    let w = Matrix::<D, M, N>::init(|| {
        i += 1;
        D::new(i - 1)
    });
    let (v, w) = v.zip(w).unzip();
    in_order(v.iter(), M * N);
    for (i, x) in w.iter().enumerate() {
        ck!(x.id() == 16 + i, "unzip");
    }
    drop(w);
    drop(v);
    all_dropped();
}
fn mscans<const M: usize, const N: usize>(_: &mut impl Src) {
    let v = fillm::<M, N>().scan(0u16, |s, x| {
        *s += 1;
        (x, *s)
    });
    let (v, c) = v.unzip();
    let mut k = 0;
    for x in c.iter() {
        k += 1;
        ck!(*x == k, "scan state");
    }
    in_order(v.iter(), M * N);
    drop(v);
    all_dropped();
}
fn mfolds<const M: usize, const N: usize>(_: &mut impl Src) {
    let last = fillm::<M, N>().fold_first(|a, b| {
        ck!(a.id() + 1 == b.id(), "fold_first order");
        b
    });
    ck!(last.id() == M * N - 1, "fold_first result");
    drop(last);
    all_dropped();
    let n = fillm::<M, N>().fold(0, |n, x| {
        ck!(x.id() == n, "fold order");
        n + 1
    });
    ck!(n == M * N, "fold count");
    all_dropped();
}
fn transpose<const M: usize, const N: usize>(_: &mut impl Src) {
    let t = fillm::<M, N>().transpose();
    for i in 0..M {
        for j in 0..N {
            ck!(t[(j, i)].id() == i * N + j, "transposed element");
        }
    }
    drop(t);
    all_dropped();
}
fn convert<const N: usize>(_: &mut impl Src) {
    let v = Vector::from_array(fill::<N>().into_array());
    let a: [D; N] = v.into();
    let mut v: Vector<D, N> = a.into();
    in_order(v.as_array().iter(), N);
    in_order(v.as_mut_array().iter(), N);
    in_order(v.iter_mut().map(|x| &*x), N);
    drop(v);
    all_dropped();
}
fn mconvert<const M: usize, const N: usize>(_: &mut impl Src) {
    let m = Matrix::from_vector_of_vectors(fillm::<M, N>().into_vector_of_vectors());
    let m = Matrix::from_array_of_vectors(m.into_array_of_vectors());
    let m = Matrix::from_array_of_arrays(m.into_array_of_arrays());
    in_order(m.iter(), M * N);
    drop(m);
    all_dropped();
}
fn mviews<const M: usize, const N: usize>(_: &mut impl Src) {
    let mut m = fillm::<M, N>();
    for i in 0..M {
        for j in 0..N {
            let k = i * N + j;
            ck!(m.as_array_of_arrays()[i][j].id() == k, "as_array_of_arrays");
            ck!(m.as_mut_array_of_arrays()[i][j].id() == k, "as_mut_array_of_arrays");
            ck!(m.as_array_of_vectors()[i][j].id() == k, "as_array_of_vectors");
            ck!(m.as_mut_array_of_vectors()[i][j].id() == k, "as_mut_array_of_vectors");
            ck!(m.as_vector_of_vectors()[i][j].id() == k, "as_vector_of_vectors");
            ck!(m.as_mut_vector_of_vectors()[i][j].id() == k, "as_mut_vector_of_vectors");
        }
    }
    drop(m);
    all_dropped();
}
fn miters<const M: usize, const N: usize>(_: &mut impl Src) {
    let mut m = fillm::<M, N>();
    in_order(m.iter_mut().map(|x| &*x), M * N);
    in_order((&m).into_iter(), M * N);
    in_order((&mut m).into_iter().map(|x| &*x), M * N);
    drop(m);
    all_dropped();
}
fn tuples(_: &mut impl Src) {
    let (a, b) = fill::<2>().into_tuple();
    in_order(Vector::<D, 2>::from_tuple((a, b)).iter(), 2);
    all_dropped();
    let (a, b, c) = fill::<3>().into_tuple();
    in_order(Vector::<D, 3>::from_tuple((a, b, c)).iter(), 3);
    all_dropped();
    let (a, b, c, d) = fill::<4>().into_tuple();
    in_order(Vector::<D, 4>::from_tuple((a, b, c, d)).iter(), 4);
    all_dropped();
}
/// The documented unsafe protocol: fill uninitialised storage, then assume it initialised.
fn uninit<const N: usize>(s: &mut impl Src) {
    let mut u = Vector::<D, N>::uninit();
    // in any rotation of the index order
    let r = s.upto(N - 1);
    for i in 0..N {
        let k = (i + r) % N;
        u[k].write(D::new(k));
    }
    let v = unsafe { u.assume_init() };
    in_order(v.iter(), N);
    drop(v);
    all_dropped();
}
fn muninit<const M: usize, const N: usize>(s: &mut impl Src) {
    let mut u = Matrix::<D, M, N>::uninit();
    let r = s.upto(M * N - 1);
    for i in 0..M * N {
        let k = (i + r) % (M * N);
        u[(k / N, k % N)].write(D::new(k));
    }
    let v = unsafe { u.assume_init() };
    in_order(v.iter(), M * N);
    drop(v);
    all_dropped();
}
/// Uninitialised storage owns nothing.
fn uninit_dropped(s: &mut impl Src) {
    let mut u = Matrix::<D, 2, 2>::uninit();
    if s.bool() {
        u[(1, 0)].write(D::new(0));
        let x = core::mem::replace(&mut u[(1, 0)], core::mem::MaybeUninit::uninit());
        drop(unsafe { x.assume_init() });
    }
    drop(u);
    drop(Vector::<D, 3>::uninit());
    all_dropped();
}
/// Pointers and unchecked access within the contract.
fn pointers<const N: usize>(s: &mut impl Src) {
    let a: [u16; N] = core::array::from_fn(|_| s.u16());
    let mut v = Vector::from_array(a);
    let i = s.usize();
    s.assume(i < N);
    unsafe {
        ck!(*v.get_unchecked(i) == a[i], "get_unchecked");
        ck!(*v.as_ptr().add(i) == a[i], "as_ptr");
        let y = s.u16();
        *v.get_unchecked_mut(i) = y;
        ck!(v[i] == y, "get_unchecked_mut");
        let z = s.u16();
        *v.as_mut_ptr().add(i) = z;
        ck!(v[i] == z, "as_mut_ptr");
        let k = s.usize();
        s.assume(k < N && k != i);
        ck!(v[k] == a[k], "the others are unchanged");
    }
}
fn mpointers<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[u16; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u16()));
    let mut v = Matrix::from_array_of_arrays(a);
    let (i, j) = (s.usize(), s.usize());
    s.assume(i < M && j < N);
    unsafe {
        ck!(*v.get_unchecked(i, j) == a[i][j], "get_unchecked");
        ck!(*v.as_ptr().add(i * N + j) == a[i][j], "as_ptr");
        let y = s.u16();
        *v.get_unchecked_mut(i, j) = y;
        ck!(v[(i, j)] == y, "get_unchecked_mut");
        let z = s.u16();
        *v.as_mut_ptr().add(i * N + j) = z;
        ck!(v[(i, j)] == z, "as_mut_ptr");
        let (k, l) = (s.usize(), s.usize());
        s.assume(k < M && l < N && (k != i || l != j));
        ck!(v[(k, l)] == a[k][l], "the others are unchanged");
    }
}
/// Elements without drop glue and of size zero.
fn zero_sized(s: &mut impl Src) {
    let k = s.upto(4);
    let r = Vector::<(), 3>::try_from_iter(core::iter::repeat(()).take(k));
    ck!(r.is_some() == (k >= 3), "zero sized");
    let m = Matrix::<(), 2, 2>::try_from_iter(core::iter::repeat(()).take(k));
    ck!(m.is_some() == (k >= 4), "zero sized");
    if let Some(m) = m {
        ck!(m.transpose().into_iter().count() == 4, "zero sized");
    }
}

fn els<T: El, const N: usize>(base: usize) -> Vector<T, N> {
    let mut i = base;
    Vector::init(|| {
        i += 1;
        T::make(i - 1)
    })
}
fn elm<T: El, const M: usize, const N: usize>(base: usize) -> Matrix<T, M, N> {
    let mut i = base;
    Matrix::init(|| {
        i += 1;
        T::make(i - 1)
    })
}
fn all_ok<'a, T: El + 'a>(v: impl Iterator<Item = &'a T>, base: usize, n: usize) {
    let mut k = 0;
    for x in v {
        ck!(x.ok(base + k), "element in its place");
        k += 1;
    }
    ck!(k == n, "number of elements");
}
/// Operations that move elements between storages of different element types.
fn pairs<A: El, B: El, const N: usize>(_: &mut impl Src) {
    let z = els::<A, N>(0).zip(els::<B, N>(16));
    let (a, b) = z.unzip();
    all_ok(a.iter(), 0, N);
    all_ok(b.iter(), 16, N);
    drop(a);
    drop(b);
    none_left();
}
fn maps<A: El, B: El, const N: usize>(_: &mut impl Src) {
    let mut k = 0;
    // every element is handed over to the closure
    let b = els::<A, N>(0).map(|x| {
        ck!(x.ok(k), "map argument");
        k += 1;
        B::make(16 + k - 1)
    });
    all_ok(b.iter(), 16, N);
    drop(b);
    none_left();
}
fn scan_to<A: El, B: El, const N: usize>(_: &mut impl Src) {
    let b = els::<A, N>(0).scan(0, |k: &mut usize, x| {
        ck!(x.ok(*k), "scan argument");
        *k += 1;
        B::make(16 + *k - 1)
    });
    all_ok(b.iter(), 16, N);
    drop(b);
    none_left();
}
fn consume<A: El, const N: usize>(s: &mut impl Src) {
    let k = s.upto(N);
    let mut it = els::<A, N>(0).into_iter();
    for i in 0..k {
        ck!(it.next().unwrap().ok(i), "items in order");
    }
    drop(it);
    none_left();
}
fn counts<A: El, const N: usize>(_: &mut impl Src) {
    let e = els::<A, N>(0).enumerate();
    for (i, x) in e.iter().enumerate() {
        ck!(x.0 == i && x.1.ok(i), "enumerate");
    }
    drop(e);
    let acc = els::<A, N>(0).fold((0, D::new(31)), |acc, x| {
        ck!(x.ok(acc.0), "fold argument");
        (acc.0 + 1, acc.1)
    });
    ck!(acc.0 == N && acc.1.ok(31), "fold result");
    drop(acc);
    none_left();
}
fn mpairs<A: El, B: El, const M: usize, const N: usize>(_: &mut impl Src) {
    let z = elm::<A, M, N>(0).zip(elm::<B, M, N>(16));
    let (a, b) = z.unzip();
    all_ok(a.iter(), 0, M * N);
    all_ok(b.iter(), 16, M * N);
    drop(b);
    drop(a);
    none_left();
}
fn transposes<A: El, const M: usize, const N: usize>(_: &mut impl Src) {
    let t = elm::<A, M, N>(0).transpose();
    for i in 0..M {
        for j in 0..N {
            ck!(t[(j, i)].ok(i * N + j), "transposed element");
        }
    }
    drop(t);
    none_left();
}
fn mmaps<A: El, B: El, const M: usize, const N: usize>(_: &mut impl Src) {
    let mut k = 0;
    let b = elm::<A, M, N>(0).map(|x| {
        ck!(x.ok(k), "map argument");
        k += 1;
        B::make(16 + k - 1)
    });
    all_ok(b.iter(), 16, M * N);
    drop(b);
    none_left();
}
fn collected<T: El, const N: usize>(s: &mut impl Src) {
    let k = s.upto(N + 1);
    let mut n = 0;
    let r = Vector::<T, N>::try_from_iter(core::iter::from_fn(|| {
        if n == k {
            return None;
        }
        n += 1;
        Some(T::make(n - 1))
    }));
    ck!(r.is_some() == (k >= N), "Some exactly when there are enough items");
    match r {
        Some(v) => all_ok(v.iter(), 0, N),
        None => none_left(),
    }
    none_left();
}
fn mcollected<T: El, const M: usize, const N: usize>(s: &mut impl Src) {
    let k = s.upto(M * N + 1);
    let mut n = 0;
    let r = Matrix::<T, M, N>::try_from_iter(core::iter::from_fn(|| {
        if n == k {
            return None;
        }
        n += 1;
        Some(T::make(n - 1))
    }));
    ck!(r.is_some() == (k >= M * N), "Some exactly when there are enough items");
    match r {
        Some(v) => all_ok(v.iter(), 0, M * N),
        None => none_left(),
    }
    none_left();
}

harnesses! {
    6 c01q_pairs_d_u16 = pairs::<D, u16, 3>;
    6 c01q_maps_d_u16 = maps::<D, u16, 3>;
    7 c01t_mpairs_d_u16 = mpairs::<D, u16, 2, 2>;
    6 c01q_pairs_u16_d = pairs::<u16, D, 3>;
    6 c01q_maps_u16_d = maps::<u16, D, 3>;
    7 c01q_mpairs_u16_d = mpairs::<u16, D, 2, 2>;
    6 c01q_pairs_d_w = pairs::<D, W, 3>;
    6 c01q_maps_d_w = maps::<D, W, 3>;
    7 c01t_mpairs_d_w = mpairs::<D, W, 2, 2>;
    6 c01q_pairs_w_d = pairs::<W, D, 3>;
    6 c01q_maps_w_d = maps::<W, D, 3>;
    7 c01q_mpairs_w_d = mpairs::<W, D, 2, 2>;
    6 c01q_pairs_d_z0 = pairs::<D, Z0, 3>;
    6 c01q_maps_d_z0 = maps::<D, Z0, 3>;
    6 c01t_pairs_z0_d = pairs::<Z0, D, 3>;
    6 c01q_maps_z0_d = maps::<Z0, D, 3>;
    6 c01q_pairs_w_w = pairs::<W, W, 2>;
    6 c01q_pairs_z0_z0 = pairs::<Z0, Z0, 2>;
    6 c01q_scan_to_d_w = scan_to::<D, W, 3>;
    7 c01q_mmaps_d_w = mmaps::<D, W, 2, 2>;
    6 c01q_scan_to_w_u16 = scan_to::<W, u16, 3>;
    7 c01q_mmaps_w_u16 = mmaps::<W, u16, 2, 2>;
    6 c01q_scan_to_z0_d = scan_to::<Z0, D, 3>;
    7 c01q_mmaps_z0_d = mmaps::<Z0, D, 2, 2>;
    6 c01q_consume_w = consume::<W, 3>;
    6 c01q_counts_w = counts::<W, 2>;
    7 c01q_transposes_w = transposes::<W, 2, 2>;
    8 c01q_transposes3_w = transposes::<W, 3, 1>;
    6 c01q_consume_z0 = consume::<Z0, 3>;
    6 c01q_counts_z0 = counts::<Z0, 2>;
    7 c01q_transposes_z0 = transposes::<Z0, 2, 2>;
    8 c01q_transposes3_z0 = transposes::<Z0, 3, 1>;
    8 c01q_from_iter_5 = from_iter::<5>;
    9 c01q_transpose_1_5 = transpose::<1, 5>;
    9 c01q_transpose_5_1 = transpose::<5, 1>;
    8 c01q_lifts_5 = lifts::<5>;
    8 c01q_enumerates_5 = enumerates::<5>;
    8 c01q_into_iter_5 = into_iter::<5>;
    8 c01q_mfrom_iter_1_5 = mfrom_iter::<1, 5>;
    8 c01q_mfrom_iter_5_1 = mfrom_iter::<5, 1>;
    8 c01q_minto_iter_1_5 = minto_iter::<1, 5>;
    8 c01q_folds_5 = folds::<5>;
    8 c01q_convert_5 = convert::<5>;
    6 c01q_collected_w_3 = collected::<W, 3>;
    6 c01q_collected_z_3 = collected::<Z0, 3>;
    7 c01q_mcollected_w_2_2 = mcollected::<W, 2, 2>;
    7 c01q_mcollected_z_2_2 = mcollected::<Z0, 2, 2>;
    4 c01q_init_1 = init::<1>;
    6 c01q_init_3 = init::<3>;
    9 c01q_minit_2_3 = minit::<2, 3>;
    6 c01q_minit_3_1 = minit::<3, 1>;
    4 c01q_from_iter_1 = from_iter::<1>;
    5 c01q_from_iter_2 = from_iter::<2>;
    7 c01q_from_iter_4 = from_iter::<4>;
    5 c01q_mfrom_iter_1_2 = mfrom_iter::<1, 2>;
    7 c01q_mfrom_iter_2_2 = mfrom_iter::<2, 2>;
    6 c01q_mfrom_iter_3_1 = mfrom_iter::<3, 1>;
    9 c01q_mfrom_iter_2_3 = mfrom_iter::<2, 3>;
    7 c01q_mfrom_rows_2_2 = mfrom_rows::<2, 2>;
    9 c01q_mfrom_rows_3_2 = mfrom_rows::<3, 2>;
    4 c01q_into_iter_1 = into_iter::<1>;
    6 c01q_into_iter_3 = into_iter::<3>;
    9 c01q_minto_iter_2_3 = minto_iter::<2, 3>;
    6 c01q_minto_iter_3_1 = minto_iter::<3, 1>;
    7 c01q_group_1 = group::<1>;
    7 c01q_group_2 = group::<2>;
    7 c01q_group_3 = group::<3>;
    4 c01q_lifts_1 = lifts::<1>;
    4 c01q_zips_1 = zips::<1>;
    4 c01q_enumerates_1 = enumerates::<1>;
    4 c01q_scans_1 = scans::<1>;
    4 c01q_for_each_1 = for_each::<1>;
    6 c01q_lifts_3 = lifts::<3>;
    6 c01q_zips_3 = zips::<3>;
    6 c01q_enumerates_3 = enumerates::<3>;
    6 c01q_scans_3 = scans::<3>;
    6 c01q_for_each_3 = for_each::<3>;
    4 c01q_folds_1 = folds::<1>;
    6 c01q_folds_3 = folds::<3>;
    7 c01q_mlifts_2_2 = mlifts::<2, 2>;
    7 c01q_mzips_2_2 = mzips::<2, 2>;
    7 c01q_mscans_2_2 = mscans::<2, 2>;
    7 c01q_mfor_each_2_2 = mfor_each::<2, 2>;
    9 c01q_mlifts_3_2 = mlifts::<3, 2>;
    9 c01q_mzips_3_2 = mzips::<3, 2>;
    9 c01q_mscans_3_2 = mscans::<3, 2>;
    9 c01q_mfor_each_3_2 = mfor_each::<3, 2>;
    5 c01q_mfolds_1_2 = mfolds::<1, 2>;
    9 c01q_mfolds_3_2 = mfolds::<3, 2>;
    4 c01q_transpose_1_1 = transpose::<1, 1>;
    7 c01q_transpose_2_2 = transpose::<2, 2>;
    6 c01q_transpose_1_3 = transpose::<1, 3>;
    9 c01q_transpose_3_2 = transpose::<3, 2>;
    9 c01q_transpose_2_3 = transpose::<2, 3>;
    4 c01q_convert_1 = convert::<1>;
    6 c01q_convert_3 = convert::<3>;
    9 c01q_mconvert_2_3 = mconvert::<2, 3>;
    9 c01q_mviews_2_3 = mviews::<2, 3>;
    9 c01q_miters_2_3 = miters::<2, 3>;
    6 c01q_mconvert_3_1 = mconvert::<3, 1>;
    6 c01q_mviews_3_1 = mviews::<3, 1>;
    6 c01q_miters_3_1 = miters::<3, 1>;
    7 c01q_tuples = tuples;
    4 c01q_uninit_1 = uninit::<1>;
    6 c01q_uninit_3 = uninit::<3>;
    9 c01q_muninit_2_3 = muninit::<2, 3>;
    7 c01q_uninit_dropped = uninit_dropped;
    5 c01q_pointers_2 = pointers::<2>;
    7 c01q_pointers_4 = pointers::<4>;
    9 c01q_mpointers_2_3 = mpointers::<2, 3>;
    9 c01q_mpointers_3_2 = mpointers::<3, 2>;
    7 c01q_zero_sized = zero_sized;
    9 c01t_from_iter_6 = from_iter::<6>;
    11 c01t_from_iter_8 = from_iter::<8>;
    12 c01t_mfrom_iter_3_3 = mfrom_iter::<3, 3>;
    11 c01t_mfrom_iter_4_2 = mfrom_iter::<4, 2>;
    15 c01t_mfrom_rows_4_3 = mfrom_rows::<4, 3>;
    9 c01t_into_iter_6 = into_iter::<6>;
    12 c01t_minto_iter_3_3 = minto_iter::<3, 3>;
    11 c01t_minto_iter_4_2 = minto_iter::<4, 2>;
    7 c01t_group_4 = group::<4>;
    5 c01t_lifts_2 = lifts::<2>;
    5 c01t_zips_2 = zips::<2>;
    5 c01t_enumerates_2 = enumerates::<2>;
    5 c01t_scans_2 = scans::<2>;
    5 c01t_for_each_2 = for_each::<2>;
    9 c01t_lifts_6 = lifts::<6>;
    9 c01t_zips_6 = zips::<6>;
    9 c01t_enumerates_6 = enumerates::<6>;
    9 c01t_scans_6 = scans::<6>;
    9 c01t_for_each_6 = for_each::<6>;
    9 c01t_folds_6 = folds::<6>;
    11 c01t_mlifts_2_4 = mlifts::<2, 4>;
    11 c01t_mzips_2_4 = mzips::<2, 4>;
    11 c01t_mscans_2_4 = mscans::<2, 4>;
    11 c01t_mfor_each_2_4 = mfor_each::<2, 4>;
    6 c01t_mlifts_1_3 = mlifts::<1, 3>;
    6 c01t_mzips_1_3 = mzips::<1, 3>;
    6 c01t_mscans_1_3 = mscans::<1, 3>;
    6 c01t_mfor_each_1_3 = mfor_each::<1, 3>;
    15 c01t_mfolds_4_3 = mfolds::<4, 3>;
    11 c01t_transpose_4_2 = transpose::<4, 2>;
    12 c01t_transpose_3_3 = transpose::<3, 3>;
    19 c01t_transpose_4_4 = transpose::<4, 4>;
    13 c01t_transpose_2_5 = transpose::<2, 5>;
    9 c01t_convert_6 = convert::<6>;
    12 c01t_mconvert_3_3 = mconvert::<3, 3>;
    12 c01t_mviews_3_3 = mviews::<3, 3>;
    12 c01t_miters_3_3 = miters::<3, 3>;
    19 c01t_mconvert_4_4 = mconvert::<4, 4>;
    19 c01t_mviews_4_4 = mviews::<4, 4>;
    19 c01t_miters_4_4 = miters::<4, 4>;
    11 c01t_uninit_8 = uninit::<8>;
    12 c01t_muninit_3_3 = muninit::<3, 3>;
    11 c01t_pointers_8 = pointers::<8>;
    15 c01t_mpointers_3_4 = mpointers::<3, 4>;
}
