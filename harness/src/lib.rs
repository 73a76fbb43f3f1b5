//! Property harnesses: each one drives the real public API of `cbm` with arbitrary
//! (symbolic) inputs and states the property as assertions.
//! `vx::param(0)` usually selects the disk type: 0 D64, 1 D71, 2 D81, 3 D64 with 40 tracks.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub fn $n() $b)*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n)),*];
    };
}
pub mod util;
pub mod vx;

mod alloc;
#[cfg(feature = "cli")]
mod cli;
#[cfg(feature = "cli")]
#[path = "../../build/cli/cdisk_main.rs"]
mod program;
mod chain;
mod dirent;
mod hdr;
mod img;
mod ops;
mod recs;
mod robust;
mod rw;
mod text;
mod valid;

pub fn table() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
    for t in [alloc::TABLE, chain::TABLE, dirent::TABLE, hdr::TABLE, img::TABLE, ops::TABLE, recs::TABLE, robust::TABLE, rw::TABLE, text::TABLE, valid::TABLE] {
        v.extend_from_slice(t);
    }
    #[cfg(feature = "cli")]
    v.extend_from_slice(cli::TABLE);
    v
}
