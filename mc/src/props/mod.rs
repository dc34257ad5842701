//! One module per property (or pair of close relatives).

use crate::explore::Harness;

pub mod drv;
pub mod earlier;
pub mod util;
mod c01;
mod c02;
mod c03;
pub mod c04;
mod c05;
mod c06;
mod c07;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c21;
mod c22;
mod c23;
mod c26;
mod c27;
mod c29;
mod c30;
mod c31;
mod c32;

pub struct Spec {
    pub id: &'static str,
    /// p: the pair plugin, b: the probe plugin, d: the example plugin,
    /// s: the approval script
    pub needs: &'static str,
    pub harnesses: fn(bool) -> Vec<Harness>,
    pub assumptions: &'static [&'static str],
}

pub const ENV: &str = "the kernel's own behaviour (permissions, sockets, signals) is that of the running Linux; libc calls are intercepted in the plugin's GOT";
pub const ONE: &str = "one session at a time in one single-threaded process, as sudo runs its plugins";

pub fn find(id: &str) -> Option<Spec> {
    let all = [c01::spec(), c02::spec(), c03::spec(), c04::spec(), c05::spec(), c06::spec(), c07::spec07(), c07::spec08(), c09::spec(), c10::spec10(), c10::spec20(), c11::spec(), c12::spec(), c13::spec(), c14::spec(), c15::spec(), c16::spec(), c17::spec(), c18::spec(), c19::spec(), c21::spec(), c22::spec22(), c23::spec(), c22::spec24(), c07::spec25(), c26::spec(), c27::spec(), c26::spec28(), c29::spec(), c30::spec(), c31::spec(), c32::spec()];
    all.into_iter().find(|s| s.id == id)
}
