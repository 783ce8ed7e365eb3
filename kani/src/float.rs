//! IEEE floats where no arithmetic is involved: comparisons with NaN, infinities and signed zeros
//! (C07), moduli of the primitive types (C09).
use crate::*;
use vecmat::traits::*;
use vecmat::{Matrix, Vector};

fn cmp<const N: usize>(s: &mut impl Src) {
    let a: [f32; N] = core::array::from_fn(|_| s.f32());
    let b: [f32; N] = core::array::from_fn(|_| s.f32());
    let (va, vb) = (Vector::from_array(a), Vector::from_array(b));
    let (eq, ne, lt, le, gt, ge) = (va.veq(vb), va.vne(vb), va.vlt(vb), va.vle(vb), va.vgt(vb), va.vge(vb));
    let mut same = true;
    for i in 0..N {
        let (x, y) = (a[i], b[i]);
        same = same && x == y;
        ck!(eq[i] == (x == y), "veq");
        ck!(ne[i] == (x != y), "vne");
        ck!(lt[i] == (x < y), "vlt");
        ck!(le[i] == (x <= y), "vle");
        ck!(gt[i] == (x > y), "vgt");
        ck!(ge[i] == (x >= y), "vge");
    }
    ck!((va == vb) == same && (va != vb) != same, "==");
}
fn mcmp<const M: usize, const N: usize>(s: &mut impl Src) {
    let a: [[f32; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.f32()));
    let b: [[f32; N]; M] = core::array::from_fn(|_| core::array::from_fn(|_| s.f32()));
    let (va, vb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let (eq, ne, lt, le, gt, ge) = (va.veq(vb), va.vne(vb), va.vlt(vb), va.vle(vb), va.vgt(vb), va.vge(vb));
    let mut same = true;
    for i in 0..M {
        for j in 0..N {
            let (x, y, k) = (a[i][j], b[i][j], (i, j));
            same = same && x == y;
            ck!(eq[k] == (x == y), "veq");
            ck!(ne[k] == (x != y), "vne");
            ck!(lt[k] == (x < y), "vlt");
            ck!(le[k] == (x <= y), "vle");
            ck!(gt[k] == (x > y), "vgt");
            ck!(ge[k] == (x >= y), "vge");
        }
    }
    ck!((va == vb) == same && (va != vb) != same, "==");
}
/// |x|, for every x but NaN, by its bits.
fn norm32(s: &mut impl Src) {
    let b = s.u32();
    let x = f32::from_bits(b);
    s.assume(x == x);
    let m = b & 0x7fff_ffff;
    ck!(x.norm_l1().to_bits() == m, "norm_l1");
    ck!(x.norm_l2().to_bits() == m, "norm_l2");
    ck!(x.norm_l_inf().to_bits() == m, "norm_l_inf");
    ck!(Conj::conj(x).to_bits() == b, "conj");
}
fn norm64(s: &mut impl Src) {
    let b = s.u64();
    let x = f64::from_bits(b);
    s.assume(x == x);
    let m = b & (u64::MAX >> 1);
    ck!(x.norm_l1().to_bits() == m, "norm_l1");
    ck!(x.norm_l2().to_bits() == m, "norm_l2");
    ck!(x.norm_l_inf().to_bits() == m, "norm_l_inf");
    ck!(Conj::conj(x).to_bits() == b, "conj");
}
fn epsilon(s: &mut impl Src) {
    let x = s.f32();
    ck!(x.is_epsilon() == (x >= -f32::EPSILON && x <= f32::EPSILON), "f32 is_epsilon");
    let y = f64::from_bits(s.u64());
    ck!(y.is_epsilon() == (y >= -f64::EPSILON && y <= f64::EPSILON), "f64 is_epsilon");
}

harnesses! {
    6 c07q_fcmp_1 = cmp::<1>;
    6 c07q_fcmp_2 = cmp::<2>;
    5 c07q_fmcmp_1_2 = mcmp::<1, 2>;
    6 c07t_fcmp_3 = cmp::<3>;
    9 c07t_fmcmp_2_2 = mcmp::<2, 2>;
    9 c07t_fmcmp_1_3 = mcmp::<1, 3>;
    10 c07t_fcmp_8 = cmp::<8>;
    12 c07t_fmcmp_3_3 = mcmp::<3, 3>;
    2 c09q_norm_f32 = norm32;
    2 c09q_norm_f64 = norm64;
    2 c09q_epsilon = epsilon;
}
