//! Crate root around the repository's own `math.rs` (source import of libm plus the C symbols). The
//! repository's `lib.rs` differs only by `#![compiler_builtins]`, which drops the symbols from an
//! optimised archive.
#![feature(core_intrinsics, f16, f128)]
#![allow(internal_features, warnings)]
#![no_std]
#[path = "/repo/crates/compiler-builtins-smoke-test/src/math.rs"]
mod math;
use math::libm::support;
