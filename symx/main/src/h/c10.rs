//! Iteration and higher-order operations (C10).
use crate::util::*;
use std::cell::RefCell;
use vecmat::matrix::FlatIter;
use vecmat::vector::GroupIter;

fn seq<S: Scal>(l: &str, got: &[S], want: &[S]) {
    S::check(&format!("{}: {} items, expected {}", l, got.len(), want.len()), got.len() == want.len());
    for (i, (x, y)) in got.iter().zip(want).enumerate() {
        S::prove_eq(&format!("{} [{}]", l, i), *x, *y);
    }
}
/// A closure that depends on its call number.
struct Calls<S> {
    n: RefCell<i64>,
    seen: RefCell<Vec<S>>,
}
impl<S: Scal> Calls<S> {
    fn new() -> Self {
        Calls { n: RefCell::new(0), seen: RefCell::new(vec![]) }
    }
    fn call(&self, x: S) -> S {
        let k = *self.n.borrow();
        *self.n.borrow_mut() += 1;
        self.seen.borrow_mut().push(x);
        S::uf("f", &[x, S::k(k)])
    }
    fn expect(&self, l: &str, want: &[S]) {
        seq(&format!("{}: arguments", l), &self.seen.borrow(), want);
    }
}
fn f<S: Scal>(x: S, k: usize) -> S {
    S::uf("f", &[x, S::k(k as i64)])
}
fn g<S: Scal>(acc: S, x: S) -> S {
    S::uf("g", &[acc, x])
}
fn h<S: Scal>(acc: S, x: S) -> S {
    S::uf("h", &[acc, x])
}

fn vec_higher<S: Sc, const N: usize>() {
    let (a, b, s) = (arr::<S, N>("a"), arr::<S, N>("b"), S::var("s"));
    let (v, w) = (Vector::from_array(a), Vector::from_array(b));
    let c = Calls::new();
    veq("map", v.map(|x| c.call(x)), core::array::from_fn(|i| f(a[i], i)));
    c.expect("map", &a);
    let c = Calls::new();
    v.for_each(|x| {
        c.call(x);
    });
    c.expect("for_each", &a);
    let z = v.zip(w).into_array();
    seq("zip.0", &z.map(|p| p.0), &a);
    seq("zip.1", &z.map(|p| p.1), &b);
    let p: [(S, S); N] = core::array::from_fn(|i| (a[i], b[i]));
    let (x, y) = Vector::from_array(p).unzip();
    veq("unzip.0", x, a);
    veq("unzip.1", y, b);
    let e = v.enumerate().into_array();
    S::check("enumerate index", (0..N).all(|i| e[i].0 == i));
    seq("enumerate value", &e.map(|p| p.1), &a);
    let r = RefCell::new(vec![]);
    let out = v.fold(s, |acc, x| {
        r.borrow_mut().push(x);
        g(acc, x)
    });
    seq("fold: arguments", &r.borrow(), &a);
    S::prove_eq("fold", out, a.iter().fold(s, |p, x| g(p, *x)));
    let r = RefCell::new(vec![]);
    let out = v.fold_first(|acc, x| {
        r.borrow_mut().push(x);
        g(acc, x)
    });
    seq("fold_first: arguments", &r.borrow(), &a[1..]);
    S::prove_eq("fold_first", out, a[1..].iter().fold(a[0], |p, x| g(p, *x)));
    let mut st = s;
    let want: [S; N] = core::array::from_fn(|i| {
        st = g(st, a[i]);
        h(st, a[i])
    });
    let r = RefCell::new(vec![]);
    let out = v.scan(s, |st: &mut S, x| {
        r.borrow_mut().push(x);
        *st = g(*st, x);
        h(*st, x)
    });
    seq("scan: arguments", &r.borrow(), &a);
    veq("scan", out, want);
}
fn mat_higher<S: Sc, const M: usize, const N: usize>() {
    let (a, b, s) = (arr2::<S, M, N>("a"), arr2::<S, M, N>("b"), S::var("s"));
    let (v, w) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let fa: Vec<S> = a.iter().flatten().cloned().collect();
    let fb: Vec<S> = b.iter().flatten().cloned().collect();
    let flat = |m: Matrix<S, M, N>| -> Vec<S> { m.into_array_of_arrays().iter().flatten().cloned().collect() };
    let c = Calls::new();
    meq("map", v.map(|x| c.call(x)), core::array::from_fn(|i| core::array::from_fn(|j| f(a[i][j], i * N + j))));
    c.expect("map", &fa);
    let c = Calls::new();
    v.for_each(|x| {
        c.call(x);
    });
    c.expect("for_each", &fa);
    let z = v.zip(w).into_array_of_arrays();
    seq("zip.0", &z.iter().flatten().map(|p| p.0).collect::<Vec<_>>(), &fa);
    seq("zip.1", &z.iter().flatten().map(|p| p.1).collect::<Vec<_>>(), &fb);
    let p: [[(S, S); N]; M] = core::array::from_fn(|i| core::array::from_fn(|j| (a[i][j], b[i][j])));
    let (x, y) = Matrix::from_array_of_arrays(p).unzip();
    seq("unzip.0", &flat(x), &fa);
    seq("unzip.1", &flat(y), &fb);
    let r = RefCell::new(vec![]);
    let out = v.fold(s, |acc, x| {
        r.borrow_mut().push(x);
        g(acc, x)
    });
    seq("fold: arguments", &r.borrow(), &fa);
    S::prove_eq("fold", out, fa.iter().fold(s, |p, x| g(p, *x)));
    let r = RefCell::new(vec![]);
    let out = v.fold_first(|acc, x| {
        r.borrow_mut().push(x);
        g(acc, x)
    });
    seq("fold_first: arguments", &r.borrow(), &fa[1..]);
    S::prove_eq("fold_first", out, fa[1..].iter().fold(fa[0], |p, x| g(p, *x)));
    let mut st = s;
    let want: [[S; N]; M] = core::array::from_fn(|i| {
        core::array::from_fn(|j| {
            st = g(st, a[i][j]);
            h(st, a[i][j])
        })
    });
    let r = RefCell::new(vec![]);
    let out = v.scan(s, |st: &mut S, x| {
        r.borrow_mut().push(x);
        *st = g(*st, x);
        h(*st, x)
    });
    seq("scan: arguments", &r.borrow(), &fa);
    meq("scan", out, want);
}
/// A source with a chosen size hint, which counts the calls of its `next`.
struct Source<S> {
    items: std::vec::IntoIter<S>,
    hint: usize,
    calls: usize,
    most: usize,
}
impl<S: Scal> Source<S> {
    fn new(items: Vec<S>, hint: usize) -> Self {
        let most = 2 * items.len() + 20;
        Source { items: items.into_iter(), hint, calls: 0, most }
    }
}
impl<S: Scal> Iterator for Source<S> {
    type Item = S;
    fn next(&mut self) -> Option<S> {
        self.calls += 1;
        if self.calls > self.most {
            S::check("the source is not asked forever", false);
            panic!("endless");
        }
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            _ => (n / 2, Some(n + 3)),
        }
    }
}
fn hint_holds<S: Scal, I: Iterator>(l: &str, it: &I, left: usize) {
    let (lo, hi) = it.size_hint();
    S::check(&format!("{}: size_hint allows the {} items left", l, left), lo <= left && hi.map_or(true, |h| left <= h));
}
/// Groups of N out of a source of symbolic length up to 3N+1.
fn group_iter<S: Sc, const N: usize>() {
    let len = choose::<S>("len", 3 * N + 2);
    let hint = choose::<S>("hint", 4);
    let a: Vec<S> = (0..len).map(|i| S::var(&format!("a{}", i))).collect();
    let mut src = Source::new(a.clone(), hint);
    let mut it = GroupIter::<_, N>::new(&mut src);
    let mut groups = 0;
    while groups <= len {
        hint_holds::<S, _>("GroupIter", &it, len / N - groups.min(len / N));
        match it.next() {
            Some(v) => {
                let x: [S; N] = v.into_array();
                S::check("a group only from enough items", (groups + 1) * N <= len);
                if (groups + 1) * N <= len {
                    seq(&format!("group {}", groups), &x, &a[groups * N..(groups + 1) * N]);
                }
                groups += 1;
            }
            None => break,
        }
    }
    S::check("all full groups", groups == len / N);
    S::check("still at the end", GroupIter::<_, N>::new(&mut src).next().is_none());
}
/// The other methods of the iterators agree with repeated `next`.
fn agree<S: Sc, I: Iterator>(l: &str, make: impl Fn() -> I, want: &[S], flat: impl Fn(I::Item) -> Vec<S>, one: usize) {
    let n = want.len() / one;
    let items = |v: Vec<I::Item>| -> Vec<S> { v.into_iter().flat_map(&flat).collect() };
    let get = |k: usize| -> &[S] { if k < n { &want[k * one..(k + 1) * one] } else { &[] } };
    hint_holds::<S, _>(l, &make(), n);
    let k = choose::<S>("k", n + 2);
    let mut it = make();
    seq(&format!("{}: nth", l), &it.nth(k).map_or(vec![], &flat), get(k));
    seq(&format!("{}: after nth", l), &it.next().map_or(vec![], &flat), get(k + 1));
    seq(&format!("{}: skip", l), &items(make().skip(k).collect()), &want[(k * one).min(want.len())..]);
    S::check(&format!("{}: count", l), make().count() == n);
    seq(&format!("{}: last", l), &make().last().map_or(vec![], &flat), if n > 0 { get(n - 1) } else { &[] });
    seq(&format!("{}: step_by", l), &items(make().step_by(2).collect()), &(0..n).step_by(2).flat_map(|i| get(i).to_vec()).collect::<Vec<_>>());
    let mut r = vec![];
    make().for_each(|x| r.push(x));
    seq(&format!("{}: for_each", l), &items(r), want);
    let mut seen = vec![];
    let mut it = make();
    let found = it.find_map(|x| {
        seen.push(x);
        if seen.len() > k { Some(()) } else { None }
    });
    S::check(&format!("{}: find_map", l), found.is_some() == (k < n));
    seq(&format!("{}: up to the found one", l), &items(seen), &want[..((k + 1).min(n)) * one]);
    seq(&format!("{}: after the found one", l), &items(it.collect()), &want[((k + 1).min(n)) * one..]);
}
fn vec_iter_methods<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let v = Vector::from_array(a);
    agree("vector into_iter", || v.into_iter(), &a, |x| vec![x], 1);
    agree("vector iter", || v.iter(), &a, |x| vec![*x], 1);
    agree("&vector", || (&v).into_iter(), &a, |x| vec![*x], 1);
}
fn mat_iter_methods<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let fa: Vec<S> = a.iter().flatten().cloned().collect();
    let v = Matrix::from_array_of_arrays(a);
    agree("matrix into_iter", || v.into_iter(), &fa, |x| vec![x], 1);
    agree("matrix iter", || v.iter(), &fa, |x| vec![*x], 1);
    agree("&matrix", || (&v).into_iter(), &fa, |x| vec![*x], 1);
}
fn group_iter_methods<S: Sc, const N: usize>() {
    let len = choose::<S>("len", 2 * N + 2);
    let hint = choose::<S>("hint", 4);
    let a: Vec<S> = (0..len).map(|i| S::var(&format!("a{}", i))).collect();
    agree("GroupIter", || GroupIter::<_, N>::new(Source::new(a.clone(), hint)), &a[..len / N * N], |x: Vector<S, N>| x.into_array().to_vec(), N);
}
/// Up to K inner iterators of symbolic lengths 0..=2.
fn flat_iter<S: Sc, const K: usize>() {
    let k = choose::<S>("outer", K + 1);
    let lens: Vec<usize> = (0..k).map(|i| choose::<S>(&format!("len{}", i), 3)).collect();
    let a: Vec<Vec<S>> = lens.iter().enumerate().map(|(i, n)| (0..*n).map(|j| S::var(&format!("a{}_{}", i, j))).collect()).collect();
    let want: Vec<S> = a.iter().flatten().cloned().collect();
    match FlatIter::new(a.into_iter()) {
        None => S::check("no iterator only for an empty sequence", k == 0),
        Some(mut it) => {
            S::check("an iterator only for a non-empty sequence", k > 0);
            let mut got = vec![];
            while got.len() <= 3 * K {
                match it.next() {
                    Some(x) => got.push(x),
                    None => break,
                }
                hint_holds::<S, _>("FlatIter", &it, want.len() - got.len().min(want.len()));
            }
            S::check("stays exhausted", it.next().is_none());
            seq("concatenation", &got, &want);
        }
    }
}
/// Partial consumption of owning iterators yields a prefix, in order.
fn vec_iter_prefix<S: Sc, const N: usize>() {
    let a = arr::<S, N>("a");
    let n = choose::<S>("n", N + 1);
    let mut it = Vector::from_array(a).into_iter();
    let got: Vec<S> = (&mut it).take(n).collect();
    seq("prefix", &got, &a[..n]);
    let rest: Vec<S> = it.collect();
    seq("rest", &rest, &a[n..]);
}
fn mat_iter_prefix<S: Sc, const M: usize, const N: usize>() {
    let a = arr2::<S, M, N>("a");
    let fa: Vec<S> = a.iter().flatten().cloned().collect();
    let n = choose::<S>("n", M * N + 1);
    let mut it = Matrix::from_array_of_arrays(a).into_iter();
    let got: Vec<S> = (&mut it).take(n).collect();
    seq("prefix", &got, &fa[..n]);
    let rest: Vec<S> = it.collect();
    seq("rest", &rest, &fa[n..]);
}
pub fn reg(v: &mut Vec<H>) {
    reg1!(v, Quick, ["C10"], vec_higher, [1 2 3 4 5 6 7 8 9 16]);
    reg2!(v, Quick, ["C10"], mat_higher, [(1 1) (1 2) (1 3) (1 4) (1 5) (2 1) (2 2) (2 3) (2 4) (2 5) (3 1) (3 2) (3 3) (3 4) (3 5) (4 1) (4 2) (4 3) (4 4) (4 5) (5 1) (5 2) (5 3) (5 4) (5 5) (1 6) (6 1)]);
    reg1!(v, Quick, ["C10"], group_iter, [1 2 3 4 5]);
    reg1!(v, Quick, ["C10"], group_iter_methods, [1 2 3]);
    reg1!(v, Quick, ["C10"], group_iter_methods, [4 5]);
    reg1!(v, Quick, ["C10"], vec_iter_methods, [1 2 3 4 5]);
    reg2!(v, Quick, ["C10"], mat_iter_methods, [(1 1) (1 3) (3 1) (2 2) (2 3) (3 2)]);
    reg2!(v, Quick, ["C10"], mat_iter_methods, [(1 5) (5 1) (3 3) (2 5) (5 2) (4 4)]);
    reg1!(v, Quick, ["C10"], flat_iter, [3 4]);
    reg1!(v, Quick, ["C10"], flat_iter, [5 6]);
    reg1!(v, Quick, ["C10"], vec_higher, [17 33]);
    reg2!(v, Quick, ["C10"], mat_higher, [(1 17) (17 1) (8 8)]);
    reg1!(v, Quick, ["C10"], group_iter, [6 8]);
    reg1!(v, Quick, ["C10"], vec_iter_prefix, [16 17]);
    reg2!(v, Quick, ["C10"], mat_iter_prefix, [(4 4) (5 5) (1 17) (17 1)]);
    reg1!(v, Quick, ["C10"], vec_iter_prefix, [1 2 3 4 5 9]);
    reg2!(v, Quick, ["C10"], mat_iter_prefix, [(1 1) (1 2) (1 3) (1 4) (2 1) (2 2) (2 3) (2 4) (3 1) (3 2) (3 3) (3 4) (4 1) (4 2) (4 3) (1 6) (6 1) (5 2) (2 5)]);
    reg1!(v, Quick, ["C10"], vec_higher, [12 65]);
    reg2!(v, Quick, ["C10"], mat_higher, [(6 6) (9 1) (1 9) (9 9)]);
}
