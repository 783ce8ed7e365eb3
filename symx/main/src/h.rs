use crate::harness::H;
macro_rules! mods { ($($m:ident)*) => {
    $( mod $m; )*
    pub fn all() -> Vec<H> {
        let mut v = vec![];
        $( $m::reg(&mut v); )*
        v
    }
} }
mods!(c02 c05 c07 c08 c09 c10 c11 c13 c15 c19 c20 c22 c24 c29);
