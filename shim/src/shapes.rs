// One macro per function shape; needs `drive(n, prog, f)` in scope.
type N = usize;
type P = *mut usize;

// T -> T
macro_rules! u {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, o: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) = ($f)($t::from_bits(*x.add(i))).to_bits()) }
        }
    )*};
}
// (T, T) -> T
macro_rules! bi {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, y: *const $b, o: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) =
                ($f)($t::from_bits(*x.add(i)), $t::from_bits(*y.add(i))).to_bits()) }
        }
    )*};
}
// (T, T, T) -> T
macro_rules! ter {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, y: *const $b, z: *const $b, o: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) =
                ($f)($t::from_bits(*x.add(i)), $t::from_bits(*y.add(i)), $t::from_bits(*z.add(i))).to_bits()) }
        }
    )*};
}
// T -> (T, T)
macro_rules! utt {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, o: *mut $b, o2: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| {
                let r = ($f)($t::from_bits(*x.add(i)));
                *o.add(i) = r.0.to_bits();
                *o2.add(i) = r.1.to_bits();
            }) }
        }
    )*};
}
// T -> (T, i32)
macro_rules! uti {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, o: *mut $b, o2: *mut i32) -> i32 {
            unsafe { drive(n, p, |i| {
                let r = ($f)($t::from_bits(*x.add(i)));
                *o.add(i) = r.0.to_bits();
                *o2.add(i) = r.1;
            }) }
        }
    )*};
}
// T -> i32
macro_rules! ui {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, o: *mut i32) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) = ($f)($t::from_bits(*x.add(i)))) }
        }
    )*};
}
// (T, i32) -> T
macro_rules! ti {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, k: *const i32, o: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) = ($f)($t::from_bits(*x.add(i)), *k.add(i)).to_bits()) }
        }
    )*};
}
// (i32, T) -> T   (same C shape as (T, i32))
macro_rules! it {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, k: *const i32, o: *mut $b) -> i32 {
            unsafe { drive(n, p, |i| *o.add(i) = ($f)(*k.add(i), $t::from_bits(*x.add(i))).to_bits()) }
        }
    )*};
}
// (T, T) -> (T, i32)
macro_rules! tti {
    ($t:ident $b:ident: $($n:ident = $f:expr),* $(,)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(n: N, p: P, x: *const $b, y: *const $b, o: *mut $b, o2: *mut i32) -> i32 {
            unsafe { drive(n, p, |i| {
                let r = ($f)($t::from_bits(*x.add(i)), $t::from_bits(*y.add(i)));
                *o.add(i) = r.0.to_bits();
                *o2.add(i) = r.1;
            }) }
        }
    )*};
}

