//! Harnesses: the real group wrappers of the crate, over the libraries that
//! they wrap, with the arithmetic of the curves replaced by models.
#![allow(clippy::all)]
#![allow(static_mut_refs)]

#[macro_use]
#[path = "../../vk/src/nd.rs"]
pub mod nd;
pub mod curve;
pub mod hash;

/// Declares a module of harnesses: Kani proofs, and entries of a table for the
/// native replay.
macro_rules! harnesses {
    ($($(#[$m:meta])* [$u:literal] fn $name:ident() $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() $body
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub const ALL: &[&[(&str, fn())]] = &[$($m::TABLE),*];
    };
}

modules! { h_codec h_hash }
