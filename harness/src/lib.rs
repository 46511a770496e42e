#![allow(clippy::all)]
pub mod mono;
pub mod nd;
pub mod spec;
pub mod variant;

#[cfg(infrared_verif = "nec")]
pub mod d_nec;
#[cfg(infrared_verif = "sbp")]
pub mod d_sbp;
#[cfg(infrared_verif = "denon")]
pub mod d_denon;
#[cfg(infrared_verif = "rc5")]
pub mod d_rc5;
#[cfg(infrared_verif = "rc6")]
pub mod d_rc6;
pub mod lemmas;
pub mod spans;
pub mod spy;
pub mod recv;

pub mod send;
pub mod enc;
pub mod cmd;
pub mod remote;
#[cfg(not(kani))]
pub mod maps;

/// All harnesses, for native replay
#[cfg(not(kani))]
pub fn registry(v: &mut Vec<(&'static str, fn())>) {
    #[cfg(infrared_verif = "nec")]
    d_nec::registry(v);
    #[cfg(infrared_verif = "sbp")]
    d_sbp::registry(v);
    #[cfg(infrared_verif = "denon")]
    d_denon::registry(v);
    #[cfg(infrared_verif = "rc5")]
    d_rc5::registry(v);
    #[cfg(infrared_verif = "rc6")]
    d_rc6::registry(v);
    lemmas::registry(v);
    spans::registry(v);
    recv::registry(v);
    #[cfg(infrared_verif = "poll")]
    recv::hooked::registry(v);
    #[cfg(infrared_verif = "iter")]
    recv::hooked_iter::registry(v);
    send::registry(v);
    #[cfg(infrared_verif = "sender")]
    send::step_registry(v);
    enc::registry_all(v);
    cmd::registry(v);
    remote::registry(v);
}
