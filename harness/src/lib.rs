pub mod alloc;
pub mod gen;
pub mod hist;
pub mod model;
pub mod ops;
pub mod p_core;
pub mod p_err;
#[cfg(feature = "cfg_rand")]
pub mod p_rand;
#[cfg(feature = "cfg_serde")]
pub mod p_serde;
pub mod p_str;
pub mod runner;
pub mod cli;

use runner::Prop;

pub fn props() -> Vec<Prop> {
    let mut v = p_core::props();
    v.extend(p_err::props());
    v.extend(p_str::props());
    v.extend(hist::props());
    #[cfg(feature = "cfg_rand")]
    v.extend(p_rand::props());
    #[cfg(feature = "cfg_serde")]
    v.extend(p_serde::props());
    v
}
