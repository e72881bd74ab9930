// Shared by the shims: panic capture, the batch driver and one macro per function shape.
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

static LAST_PANIC: Mutex<[u8; 512]> = Mutex::new([0; 512]);

#[no_mangle]
pub extern "C" fn vb_init() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut b) = LAST_PANIC.lock() {
            let s = info.to_string();
            let n = s.len().min(511);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
            b[n] = 0;
        }
    }));
}

#[no_mangle]
pub unsafe extern "C" fn vb_last_panic(out: *mut u8) {
    if let Ok(b) = LAST_PANIC.lock() {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), out, 512) };
    }
}

#[inline(always)]
unsafe fn drive(n: usize, prog: *mut usize, mut f: impl FnMut(usize)) -> i32 {
    let r = catch_unwind(AssertUnwindSafe(|| {
        for i in 0..n {
            unsafe { prog.write_volatile(i) };
            f(i);
        }
    }));
    if r.is_ok() {
        unsafe { prog.write_volatile(n) };
        0
    } else {
        1
    }
}

include!("shapes.rs");
