//! Fixed-width integers: scalar on the left (C05), bit, comparison and floor-division lifts (C07),
//! norms of the primitive types and reductions (C09).
use crate::*;
use vecmat::traits::*;
use vecmat::{Matrix, Vector};

// ---- C05: s * v, one impl per primitive type
macro_rules! lmul {
    ($($name:ident $t:ident $u:ident;)*) => {$(
        fn $name<const N: usize>(s: &mut impl Src) {
            // operands of one byte, so that no product overflows but in the one byte types
            let k = s.u8() as $u as $t;
            let a: [$t; N] = core::array::from_fn(|_| s.u8() as $u as $t);
            let mut p = [0; N];
            for i in 0..N {
                match k.checked_mul(a[i]) {
                    Some(x) => p[i] = x,
                    None => s.assume(false),
                }
            }
            let (l, r) = (k * Vector::from_array(a), Vector::from_array(a) * k);
            for i in 0..N {
                ck!(l[i] == p[i], "s * v");
                ck!(r[i] == p[i], "v * s");
            }
        }
    )*};
}
lmul! {
    lmul_u8 u8 u8; lmul_u16 u16 u8; lmul_u32 u32 u8; lmul_u64 u64 u8;
    lmul_i8 i8 i8; lmul_i16 i16 i8; lmul_i32 i32 i8; lmul_i64 i64 i8;
}
/// The other operators at a width where overflow and signs are real.
fn arith<const N: usize>(s: &mut impl Src) {
    let a: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let b: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let k = s.u8() as i8;
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let op = s.upto(8);
    let mut r = [0; N];
    for i in 0..N {
        let x = match op {
            0 => a[i].checked_add(b[i]),
            1 => a[i].checked_sub(b[i]),
            2 => a[i].checked_mul(b[i]),
            3 => a[i].checked_div(b[i]),
            4 => a[i].checked_rem(b[i]),
            5 => a[i].checked_mul(k),
            6 => a[i].checked_div(k),
            7 => a[i].checked_rem(k),
            _ => a[i].checked_neg(),
        };
        match x {
            Some(x) => r[i] = x,
            None => s.assume(false),
        }
    }
    let mut m = va;
    let v = match op {
        0 => {
            m += vb;
            va + vb
        }
        1 => {
            m -= vb;
            va - vb
        }
        2 => {
            m *= vb;
            va * vb
        }
        3 => {
            m /= vb;
            va / vb
        }
        4 => {
            m %= vb;
            va % vb
        }
        5 => {
            m *= k;
            va * k
        }
        6 => {
            m /= k;
            va / k
        }
        7 => {
            m %= k;
            va % k
        }
        _ => {
            m = -m;
            -va
        }
    };
    for i in 0..N {
        ck!(v[i] == r[i], "componentwise");
        ck!(m[i] == r[i], "assigning form");
    }
}

// ---- C07
fn bits<const N: usize>(s: &mut impl Src) {
    let a: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let b: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let (n, c, d, x) = (!va, va & vb, va | vb, va ^ vb);
    let (mut ac, mut ad, mut ax) = (va, va, va);
    ac &= vb;
    ad |= vb;
    ax ^= vb;
    for i in 0..N {
        ck!(n[i] == !a[i], "!a");
        ck!(c[i] == a[i] & b[i] && ac[i] == c[i], "a & b");
        ck!(d[i] == a[i] | b[i] && ad[i] == d[i], "a | b");
        ck!(x[i] == a[i] ^ b[i] && ax[i] == x[i], "a ^ b");
    }
}
fn mbits<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[u8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8()));
    let b: [[u8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8()));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let (n, c, d, x) = (!va, va & vb, va | vb, va ^ vb);
    let (mut ac, mut ad, mut ax) = (va, va, va);
    ac &= vb;
    ad |= vb;
    ax ^= vb;
    for i in 0..M {
        for j in 0..N {
            let (p, q, k) = (a[i][j], b[i][j], (i, j));
            ck!(n[k] == !p, "!a");
            ck!(c[k] == p & q && ac[k] == c[k], "a & b");
            ck!(d[k] == p | q && ad[k] == d[k], "a | b");
            ck!(x[k] == p ^ q && ax[k] == x[k], "a ^ b");
        }
    }
}
fn flags<const N: usize>(s: &mut impl Src) {
    let a: [bool; N] = core::array::from_fn(|_| s.bool());
    let b: [bool; N] = core::array::from_fn(|_| s.bool());
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let (mut any, mut all) = (false, true);
    for i in 0..N {
        any = any || a[i];
        all = all && a[i];
        ck!((!va)[i] != a[i], "!a");
        ck!((va & vb)[i] == (a[i] && b[i]), "a & b");
        ck!((va | vb)[i] == (a[i] || b[i]), "a | b");
        ck!((va ^ vb)[i] == (a[i] != b[i]), "a ^ b");
    }
    ck!(va.any() == any, "any");
    ck!(va.all() == all, "all");
}
fn mflags<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[bool; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.bool()));
    let v = Matrix::from_array_of_arrays(a);
    let (mut any, mut all) = (false, true);
    for i in 0..M {
        for j in 0..N {
            any = any || a[i][j];
            all = all && a[i][j];
        }
    }
    ck!(v.any() == any, "any");
    ck!(v.all() == all, "all");
}
fn floor_of(a: i8, b: i8, d: i8, m: i8) -> bool {
    let (a, b, d, m) = (a as i32, b as i32, d as i32, m as i32);
    a == d * b + m && if b > 0 { 0 <= m && m < b } else { b < m && m <= 0 }
}
fn floor<const N: usize>(s: &mut impl Src) {
    let a: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let b: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    for i in 0..N {
        s.assume(b[i] != 0 && (a[i] != -128 || b[i] != -1));
    }
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let (d, m) = va.div_mod_floor(vb);
    let (d2, m2) = (va.div_floor(vb), va.mod_floor(vb));
    for i in 0..N {
        ck!(floor_of(a[i], b[i], d[i], m[i]), "div_mod_floor");
        ck!(d2[i] == d[i], "div_floor");
        ck!(m2[i] == m[i], "mod_floor");
    }
}
fn mfloor<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[i8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8() as i8));
    let b: [[i8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8() as i8));
    for i in 0..M {
        for j in 0..N {
            s.assume(b[i][j] != 0 && (a[i][j] != -128 || b[i][j] != -1));
        }
    }
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let (d, m) = va.div_mod_floor(vb);
    let (d2, m2) = (va.div_floor(vb), va.mod_floor(vb));
    for i in 0..M {
        for j in 0..N {
            let k = (i, j);
            ck!(floor_of(a[i][j], b[i][j], d[k], m[k]), "div_mod_floor");
            ck!(d2[k] == d[k], "div_floor");
            ck!(m2[k] == m[k], "mod_floor");
        }
    }
}
fn cmp<const N: usize>(s: &mut impl Src) {
    let a: [i16; N] = core::array::from_fn(|_| s.u16() as i16);
    let b: [i16; N] = core::array::from_fn(|_| s.u16() as i16);
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let (eq, ne, lt, le, gt, ge) = (va.veq(vb), va.vne(vb), va.vlt(vb), va.vle(vb), va.vgt(vb), va.vge(vb));
    let mut same = true;
    for i in 0..N {
        let (x, y) = (a[i] as i32, b[i] as i32);
        same = same && x == y;
        ck!(eq[i] == (x == y), "veq");
        ck!(ne[i] == (x != y), "vne");
        ck!(lt[i] == (x < y), "vlt");
        ck!(le[i] == (x <= y), "vle");
        ck!(gt[i] == (x > y), "vgt");
        ck!(ge[i] == (x >= y), "vge");
    }
    ck!((va == vb) == same && (va != vb) != same, "==");
}
fn mcmp<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[u8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8()));
    let b: [[u8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8()));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let (eq, ne, lt, le, gt, ge) = (va.veq(vb), va.vne(vb), va.vlt(vb), va.vle(vb), va.vgt(vb), va.vge(vb));
    let mut same = true;
    for i in 0..M {
        for j in 0..N {
            let (x, y, k) = (a[i][j], b[i][j], (i, j));
            same = same && x == y;
            ck!(eq[k] == (x == y), "veq");
            ck!(ne[k] == (x != y), "vne");
            ck!(lt[k] == (x < y), "vlt");
            ck!(le[k] == (x <= y), "vle");
            ck!(gt[k] == (x > y), "vgt");
            ck!(ge[k] == (x >= y), "vge");
        }
    }
    ck!((va == vb) == same && (va != vb) != same, "==");
}

// ---- C09
macro_rules! unorm {
    ($($name:ident $t:ident;)*) => {$(
        fn $name(s: &mut impl Src) {
            let x = s.u64() as $t;
            ck!(x.norm_l1() == x, "norm_l1");
            ck!(x.norm_l2() == x, "norm_l2");
            ck!(x.norm_l_inf() == x, "norm_l_inf");
            let (p, q) = (x % 16, s.u8() as $t % 16);
            ck!(p.norm_l2_sqr() == p * p, "norm_l2_sqr");
            ck!(p.dot(q) == p * q, "dot");
        }
    )*};
}
unorm! { norm_u8 u8; norm_u16 u16; norm_u32 u32; norm_u64 u64; norm_usize usize; }
macro_rules! snorm {
    ($($name:ident $t:ident;)*) => {$(
        fn $name(s: &mut impl Src) {
            let x = s.u64() as $t;
            s.assume(x != $t::MIN);
            let m = if x < 0 { -x } else { x };
            ck!(x.norm_l1() == m, "norm_l1");
            ck!(x.norm_l2() == m, "norm_l2");
            ck!(x.norm_l_inf() == m, "norm_l_inf");
            let (p, q) = (x % 12, s.u8() as i8 as $t % 11);
            ck!(p.norm_l2_sqr() == p * p, "norm_l2_sqr");
            ck!(p.dot(q) == p * q, "dot");
        }
    )*};
}
snorm! { norm_i8 i8; norm_i16 i16; norm_i32 i32; norm_i64 i64; norm_isize isize; }
fn reduce<const N: usize>(s: &mut impl Src) {
    let a: [i8; N] = core::array::from_fn(|_| s.u8() as i8);
    let (mut lo, mut hi, mut sum, mut l1, mut l2) = (a[0] as i32, a[0] as i32, 0, 0, 0);
    for x in a {
        let x = x as i32;
        lo = if x < lo { x } else { lo };
        hi = if x > hi { x } else { hi };
        sum += x;
        l1 += if x < 0 { -x } else { x };
        l2 += x * x;
    }
    let v = Vector::from_array(a);
    ck!(v.min() as i32 == lo, "min");
    ck!(v.max() as i32 == hi, "max");
    let w = v.map(|x| x as i32);
    ck!(w.sum() == sum, "sum");
    ck!(w.norm_l1() == l1, "norm_l1");
    ck!(w.norm_l_inf() == if hi > -lo { hi } else { -lo }, "norm_l_inf");
    ck!(w.square_length() == l2, "square_length");
}
fn mreduce<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[i8; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.u8() as i8));
    let (mut lo, mut hi, mut sum, mut l1) = (a[0][0] as i32, a[0][0] as i32, 0, 0);
    for x in a.iter().flatten() {
        let x = *x as i32;
        lo = if x < lo { x } else { lo };
        hi = if x > hi { x } else { hi };
        sum += x;
        l1 += if x < 0 { -x } else { x };
    }
    let v = Matrix::from_array_of_arrays(a);
    ck!(v.min() as i32 == lo, "min");
    ck!(v.max() as i32 == hi, "max");
    let w = v.map(|x| x as i32);
    ck!(w.sum() == sum, "sum");
    ck!(w.norm_l1() == l1, "norm_l1");
    ck!(w.norm_l_inf() == if hi > -lo { hi } else { -lo }, "norm_l_inf");
}

harnesses! {
    6 c05q_lmul_u8 = lmul_u8::<3>;
    6 c05q_lmul_u16 = lmul_u16::<3>;
    6 c05q_lmul_u32 = lmul_u32::<2>;
    6 c05q_lmul_u64 = lmul_u64::<2>;
    6 c05q_lmul_i8 = lmul_i8::<3>;
    6 c05q_lmul_i16 = lmul_i16::<3>;
    6 c05q_lmul_i32 = lmul_i32::<2>;
    6 c05q_lmul_i64 = lmul_i64::<2>;
    6 c05q_arith_1 = arith::<1>;
    6 c05q_arith_2 = arith::<2>;
    8 c05t_lmul_i32_5 = lmul_i32::<5>;
    8 c05t_lmul_u64_5 = lmul_u64::<5>;
    8 c05t_arith_3 = arith::<3>;
    8 c05t_arith_5 = arith::<5>;
    6 c07q_bits_1 = bits::<1>;
    6 c07q_bits_3 = bits::<3>;
    5 c07q_mbits_1_2 = mbits::<1, 2>;
    5 c07q_mbits_2_1 = mbits::<2, 1>;
    9 c07t_mbits_2_3 = mbits::<2, 3>;
    8 c07q_flags_1 = flags::<1>;
    8 c07q_flags_3 = flags::<3>;
    7 c07q_mflags_2_2 = mflags::<2, 2>;
    8 c07t_flags_5 = flags::<5>;
    9 c07t_mflags_2_3 = mflags::<2, 3>;
    9 c07t_mflags_3_2 = mflags::<3, 2>;
    6 c07q_floor_1 = floor::<1>;
    5 c07q_mfloor_1_1 = mfloor::<1, 1>;
    6 c07t_floor_2 = floor::<2>;
    7 c07t_mfloor_1_2 = mfloor::<1, 2>;
    7 c07t_mfloor_2_1 = mfloor::<2, 1>;
    7 c07q_cmp_2 = cmp::<2>;
    5 c07q_mcmp_1_2 = mcmp::<1, 2>;
    5 c07q_mcmp_2_1 = mcmp::<2, 1>;
    11 c07t_cmp_4 = cmp::<4>;
    9 c07t_mcmp_2_3 = mcmp::<2, 3>;
    9 c07t_mcmp_3_2 = mcmp::<3, 2>;
    18 c07t_bits_16 = bits::<16>;
    12 c07t_mflags_3_3 = mflags::<3, 3>;
    7 c07t_floor_4 = floor::<4>;
    8 c07t_mfloor_2_2 = mfloor::<2, 2>;
    27 c07t_cmp_12 = cmp::<12>;
    19 c07t_mcmp_4_4 = mcmp::<4, 4>;
    2 c09q_norm_u8 = norm_u8;
    2 c09q_norm_u16 = norm_u16;
    2 c09q_norm_u32 = norm_u32;
    2 c09q_norm_u64 = norm_u64;
    2 c09q_norm_usize = norm_usize;
    2 c09q_norm_i8 = norm_i8;
    2 c09q_norm_i16 = norm_i16;
    2 c09q_norm_i32 = norm_i32;
    2 c09q_norm_i64 = norm_i64;
    2 c09q_norm_isize = norm_isize;
    6 c09q_reduce_1 = reduce::<1>;
    6 c09q_reduce_3 = reduce::<3>;
    6 c09q_mreduce_2_2 = mreduce::<2, 2>;
    9 c09t_mreduce_2_3 = mreduce::<2, 3>;
    9 c09t_mreduce_3_1 = mreduce::<3, 1>;
    9 c09t_reduce_7 = reduce::<7>;
    14 c09t_mreduce_3_4 = mreduce::<3, 4>;
}
