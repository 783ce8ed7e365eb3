//! Integer-like element types: symbolic tokens with free function symbols, and native i64.
use num_integer::Integer;
use num_traits::{Num, NumCast};
use std::ops::*;
use symcore::sym::Sym;
use symcore::scal::{Cond, Scal};

pub trait Tok:
    Integer
    + Num
    + Copy
    + Not<Output = Self>
    + BitAnd<Output = Self>
    + BitOr<Output = Self>
    + BitXor<Output = Self>
    + BitAndAssign
    + BitOrAssign
    + BitXorAssign
    + std::fmt::Debug
    + 'static
{
    fn var(n: &str) -> Self;
    fn assume_nonzero(self);
    fn prove_eq(l: &str, a: Self, b: Self);
}
/// Symbolic token.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct TS(pub Sym<64>);
/// Native token.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct TN(pub i64);

impl Eq for TS {}
impl Ord for TS {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.partial_cmp(o).unwrap()
    }
}
fn comm(n: &'static str, a: TS, b: TS) -> TS {
    let (x, y) = if a.0.id() <= b.0.id() { (a, b) } else { (b, a) };
    TS(Sym::uf(n, &[x.0, y.0]))
}
macro_rules! bitop {
    ($Tr:ident, $f:ident, $A:ident, $fa:ident, $n:literal, $op:tt) => {
        impl $Tr for TS {
            type Output = TS;
            fn $f(self, o: TS) -> TS {
                comm($n, self, o)
            }
        }
        impl $A for TS {
            fn $fa(&mut self, o: TS) {
                *self = comm($n, *self, o)
            }
        }
        impl $Tr for TN {
            type Output = TN;
            fn $f(self, o: TN) -> TN {
                TN(self.0 $op o.0)
            }
        }
        impl $A for TN {
            fn $fa(&mut self, o: TN) {
                self.0 = self.0 $op o.0
            }
        }
    };
}
bitop!(BitAnd, bitand, BitAndAssign, bitand_assign, "bit_and", &);
bitop!(BitOr, bitor, BitOrAssign, bitor_assign, "bit_or", |);
bitop!(BitXor, bitxor, BitXorAssign, bitxor_assign, "bit_xor", ^);
impl Not for TS {
    type Output = TS;
    fn not(self) -> TS {
        TS(Sym::uf("bit_not", &[self.0]))
    }
}
impl Not for TN {
    type Output = TN;
    fn not(self) -> TN {
        TN(!self.0)
    }
}
macro_rules! arith {
    ($($Tr:ident $f:ident $op:tt,)*) => { $(
        impl $Tr for TS { type Output = TS; fn $f(self, o: TS) -> TS { TS(self.0 $op o.0) } }
        impl $Tr for TN { type Output = TN; fn $f(self, o: TN) -> TN { TN(self.0 $op o.0) } }
    )* };
}
arith!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %,);
impl num_traits::Zero for TS {
    fn zero() -> Self {
        TS(num_traits::Zero::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl num_traits::One for TS {
    fn one() -> Self {
        TS(num_traits::One::one())
    }
}
impl Num for TS {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl num_traits::Zero for TN {
    fn zero() -> Self {
        TN(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num_traits::One for TN {
    fn one() -> Self {
        TN(1)
    }
}
impl Num for TN {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
fn no<T>() -> T {
    symcore::engine::abort("integer operation outside the encoded set".into())
}
impl Integer for TS {
    fn div_floor(&self, o: &Self) -> Self {
        TS(Sym::uf("div_floor", &[self.0, o.0]))
    }
    fn mod_floor(&self, o: &Self) -> Self {
        TS(Sym::uf("mod_floor", &[self.0, o.0]))
    }
    fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
        (self.div_floor(o), self.mod_floor(o))
    }
    fn gcd(&self, _: &Self) -> Self {
        no()
    }
    fn lcm(&self, _: &Self) -> Self {
        no()
    }
    fn is_multiple_of(&self, _: &Self) -> bool {
        no()
    }
    fn is_even(&self) -> bool {
        no()
    }
    fn is_odd(&self) -> bool {
        no()
    }
    fn div_rem(&self, _: &Self) -> (Self, Self) {
        no()
    }
}
impl Integer for TN {
    fn div_floor(&self, o: &Self) -> Self {
        TN(Integer::div_floor(&self.0, &o.0))
    }
    fn mod_floor(&self, o: &Self) -> Self {
        TN(Integer::mod_floor(&self.0, &o.0))
    }
    fn gcd(&self, o: &Self) -> Self {
        TN(self.0.gcd(&o.0))
    }
    fn lcm(&self, o: &Self) -> Self {
        TN(self.0.lcm(&o.0))
    }
    fn is_multiple_of(&self, o: &Self) -> bool {
        Integer::is_multiple_of(&self.0, &o.0)
    }
    fn is_even(&self) -> bool {
        self.0.is_even()
    }
    fn is_odd(&self) -> bool {
        self.0.is_odd()
    }
    fn div_rem(&self, o: &Self) -> (Self, Self) {
        (TN(self.0 / o.0), TN(self.0 % o.0))
    }
}
impl Tok for TS {
    fn var(n: &str) -> Self {
        TS(Scal::var(n))
    }
    fn assume_nonzero(self) {
        Sym::assume(symcore::scal::ne(self.0, Scal::k(0)))
    }
    fn prove_eq(l: &str, a: Self, b: Self) {
        Sym::prove_eq(l, a.0, b.0)
    }
}
impl Tok for TN {
    fn var(n: &str) -> Self {
        // model values are rationals of any size; spread them over small integers
        let v = <f64 as Scal>::var(n) * 8.0;
        TN(<i64 as NumCast>::from(v.round()).unwrap_or(7))
    }
    fn assume_nonzero(self) {
        f64::assume(Cond::Not(Box::new(Cond::Eq(self.0 as f64, 0.0))))
    }
    fn prove_eq(l: &str, a: Self, b: Self) {
        <f64 as Scal>::check(l, a == b)
    }
}
