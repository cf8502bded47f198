//! Harnesses: the real protocol code of the crate over the model ciphersuite.
#![allow(clippy::all)]
#![allow(static_mut_refs)]

#[macro_use]
pub mod nd;
pub mod mock;
pub mod refm;
pub mod util;

/// Declares a module of harnesses: Kani proofs, and entries of a table for the
/// native replay.
macro_rules! harnesses {
    ($($(#[$m:meta])* [$u:literal] fn $name:ident() $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() $body
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub const ALL: &[&[(&str, fn())]] = &[$($m::TABLE),*];
    };
}

modules! { h_e2e h_verify h_batch h_serial h_keys h_rand h_serde h_sound h_runs }
