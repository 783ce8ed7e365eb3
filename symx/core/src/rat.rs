//! Exact rationals on i128 with overflow detection (used only for constants).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1) as i128;
        let s = if d < 0 { -1 } else { 1 };
        Some(Rat { n: s * (n / g), d: s * (d / g) })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        Rat::new(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        Rat::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        if o.n == 0 {
            return None;
        }
        Rat::new(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?)
    }
    pub fn lt(self, o: Rat) -> Option<bool> {
        Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn is_one(self) -> bool {
        self.n == 1 && self.d == 1
    }
    pub fn is_int(self) -> bool {
        self.d == 1
    }
    /// Exact value of a finite f64, if it fits.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::ZERO);
        }
        let (m, e, s) = num_traits::Float::integer_decode(x);
        let (mut m, mut e) = (m as i128, e as i32);
        while m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        let m = m * s as i128;
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat { n: m.checked_mul(1i128 << e)?, d: 1 })
        } else {
            if -e > 120 {
                return None;
            }
            Rat::new(m, 1i128 << (-e))
        }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn smt(self) -> String {
        let a = if self.d == 1 {
            format!("{}.0", self.n.unsigned_abs())
        } else {
            format!("(/ {}.0 {}.0)", self.n.unsigned_abs(), self.d)
        };
        if self.n < 0 {
            format!("(- {})", a)
        } else {
            a
        }
    }
}
