//! Batch C ABI over every public libm function . The explorer loads this library and drives the real code.
//!
//! Every export has the shape `fn(n, prog, inputs.., outputs..) -> i32`; it returns 0 when all `n`
//! calls returned and 1 when a call panicked (`*prog` is then the index of that call).
#![feature(f16, f128)]
#![allow(clippy::missing_safety_doc)]

include!("macros.rs");

include!("list.rs");
include!("list16.rs");
include!("list128.rs");
