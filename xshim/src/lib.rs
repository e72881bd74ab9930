//! The batch ABI of `shim`, without std, for targets other than the host (i686, i586, wasm32).
#![no_std]
#![cfg_attr(feature = "f16f128", feature(f16, f128))]
#![cfg_attr(feature = "archw", feature(wasm_numeric_instr))]
#![allow(clippy::missing_safety_doc)]

// index of the element being computed; survives a panic
#[no_mangle]
pub static mut VX_PROG: usize = 0;

#[cfg(target_arch = "wasm32")]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}
#[cfg(not(target_arch = "wasm32"))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe extern "C" {
        fn vx_panic() -> !;
    }
    unsafe { vx_panic() }
}

#[inline(always)]
unsafe fn drive(n: usize, _p: *mut usize, mut f: impl FnMut(usize)) -> i32 {
    for i in 0..n {
        unsafe { (&raw mut VX_PROG).write_volatile(i) };
        f(i);
    }
    unsafe { (&raw mut VX_PROG).write_volatile(n) };
    0
}

include!("../../shim/src/shapes.rs");
include!("../../shim/src/list.rs");
#[cfg(feature = "f16f128")]
include!("../../shim/src/list16.rs");
#[cfg(feature = "f16f128")]
include!("../../shim/src/list128.rs");

// memory for the driver
static mut BUF: [u64; 1 << 18] = [0; 1 << 18];
#[no_mangle]
pub extern "C" fn vx_buf() -> *mut u64 {
    (&raw mut BUF) as *mut u64
}

// The routines a wasm32 build with `unstable-intrinsics` uses instead of the portable ones. The toolchain that
// has the sources of core does not compile that feature (two renamed intrinsics), so the file is compiled on its own.
#[cfg(all(feature = "archw", target_arch = "wasm32"))]
#[path = "/repo/libm/src/math/arch/wasm32.rs"]
#[allow(dead_code)]
mod archw;
#[cfg(all(feature = "archw", target_arch = "wasm32"))]
mod archx {
    use super::{archw, drive, N, P};
    u!(f32 u32: va_ceilf = archw::ceilf, va_floorf = archw::floorf, va_truncf = archw::truncf, va_rintf = archw::rintf, va_sqrtf = archw::sqrtf, va_fabsf = archw::fabsf);
    u!(f64 u64: va_ceil = archw::ceil, va_floor = archw::floor, va_trunc = archw::trunc, va_rint = archw::rint, va_sqrt = archw::sqrt, va_fabs = archw::fabs);
}
