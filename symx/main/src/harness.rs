use symcore::{Model, Native};

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct H {
    pub name: String,
    pub props: &'static [&'static str],
    pub tier: Tier,
    pub sym: fn(),
    pub nat: fn(&Model) -> Native,
}
