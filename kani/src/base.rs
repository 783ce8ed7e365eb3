pub trait Src {
    fn u8(&mut self) -> u8;
    fn usize(&mut self) -> usize;
    fn assume(&mut self, c: bool);
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }
    fn u64(&mut self) -> u64 {
        self.u32() as u64 | (self.u32() as u64) << 32
    }
    fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    fn f32(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    fn upto(&mut self, n: usize) -> usize {
        let k = self.u8() as usize;
        self.assume(k <= n);
        k
    }
}
#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
}
pub struct Native(pub std::collections::VecDeque<Vec<u8>>);
impl Native {
    fn pop(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.0.pop_front().unwrap_or_default();
        v.resize(n, 0);
        v
    }
}
impl Src for Native {
    fn u8(&mut self) -> u8 {
        self.pop(1)[0]
    }
    fn usize(&mut self) -> usize {
        usize::from_le_bytes(self.pop(8).try_into().unwrap())
    }
    fn assume(&mut self, c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(3)
        }
    }
}

macro_rules! ck {
    ($c:expr, $l:literal) => {
        assert!($c, $l)
    };
}
/// Reached only when a call that must panic returned.
macro_rules! sentinel {
    () => {{
        #[cfg(not(kani))]
        println!("SENTINEL");
        assert!(false, "SENTINEL: returned instead of panicking")
    }};
}
/// `harnesses! { unwind name(args) = expr; ... }`
macro_rules! harnesses {
    ($($u:literal $name:ident = $f:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            fn $name() { ($f)(&mut crate::Sym) }
        )*
        pub fn list(v: &mut Vec<(&'static str, fn(&mut crate::Native))>) {
            $( v.push((stringify!($name), |s| ($f)(s))); )*
        }
    };
}

static mut LIVE: u32 = 0;
fn live() -> u32 {
    unsafe { (&raw const LIVE).read() }
}
fn set_live(m: u32) {
    unsafe { (&raw mut LIVE).write(m) }
}
/// A value whose creation and destruction is recorded.
pub struct D(u8);
impl D {
    pub fn new(i: usize) -> D {
        assert!(i < 32 && !is_live(i), "harness: slot reused");
        set_live(live() | 1 << i);
        D(i as u8)
    }
    pub fn id(&self) -> usize {
        ck!(self.0 < 32 && is_live(self.0 as usize), "an element was used after it was dropped, or never initialised");
        self.0 as usize
    }
}
impl Drop for D {
    fn drop(&mut self) {
        ck!(self.0 < 32 && is_live(self.0 as usize), "an element was dropped twice, or never initialised");
        set_live(live() & !(1 << self.0));
    }
}
pub fn is_live(i: usize) -> bool {
    live() >> i & 1 == 1
}
pub fn all_dropped() {
    ck!(live() == 0, "an element was leaked");
}
/// Yields D(base), D(base + 1), ... , `left` of them.
pub struct Feed {
    pub next: usize,
    pub left: usize,
}
impl Iterator for Feed {
    type Item = D;
    fn next(&mut self) -> Option<D> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.next += 1;
        Some(D::new(self.next - 1))
    }
}

/// Elements of several sizes, with and without drop glue.
pub trait El {
    fn make(i: usize) -> Self;
    fn ok(&self, i: usize) -> bool;
}
impl El for D {
    fn make(i: usize) -> D {
        D::new(i)
    }
    fn ok(&self, i: usize) -> bool {
        self.id() == i
    }
}
/// Larger and more strictly aligned than `D`.
pub struct W(u64, D);
impl El for W {
    fn make(i: usize) -> W {
        W(i as u64 + 1000, D::new(i))
    }
    fn ok(&self, i: usize) -> bool {
        self.1.id() == i && self.0 == i as u64 + 1000
    }
}
impl El for u16 {
    fn make(i: usize) -> u16 {
        i as u16 + 300
    }
    fn ok(&self, i: usize) -> bool {
        *self == i as u16 + 300
    }
}
static mut COUNT: u32 = 0;
/// Of size zero, and counted.
pub struct Z0;
impl El for Z0 {
    fn make(_: usize) -> Z0 {
        unsafe { COUNT += 1 };
        Z0
    }
    fn ok(&self, _: usize) -> bool {
        unsafe { COUNT > 0 }
    }
}
impl Drop for Z0 {
    fn drop(&mut self) {
        unsafe {
            ck!(COUNT > 0, "an element of size zero was dropped twice");
            COUNT -= 1;
        }
    }
}
pub fn none_left() {
    all_dropped();
    ck!(unsafe { COUNT } == 0, "an element of size zero was leaked");
}
