//! helpers for checks/c33.py: the results of the routines as bits, and running many processes
use libm_test::Float;
use std::io::Read;
trait B { fn b(self) -> String; }
impl B for f16 { fn b(self) -> String { format!("f{:x}", self.to_bits()) } }
impl B for f32 { fn b(self) -> String { format!("f{:x}", self.to_bits()) } }
impl B for f64 { fn b(self) -> String { format!("f{:x}", self.to_bits()) } }
impl B for f128 { fn b(self) -> String { format!("f{:x}", self.to_bits()) } }
impl B for i32 { fn b(self) -> String { format!("i{self}") } }
impl<X: B, Y: B> B for (X, Y) { fn b(self) -> String { format!("{} {}", self.0.b(), self.1.b()) } }
trait P { fn p(s: &str) -> Self; }
impl P for i32 { fn p(s: &str) -> Self { s.parse().unwrap() } }
macro_rules! pf { ($($t:ty, $u:ty);*) => { $(impl P for $t { fn p(s: &str) -> Self { <$t>::from_bits(<$u>::from_str_radix(s, 16).unwrap()) } })* } }
pf!(f16, u16; f32, u32; f64, u64; f128, u128);
trait Call<F> { fn call(f: F, a: &[&str]) -> String; }
impl<T: P, R: B> Call<fn(T) -> R> for (T,) { fn call(f: fn(T) -> R, a: &[&str]) -> String { f(T::p(a[0])).b() } }
impl<T: P, U: P, R: B> Call<fn(T, U) -> R> for (T, U) { fn call(f: fn(T, U) -> R, a: &[&str]) -> String { f(T::p(a[0]), U::p(a[1])).b() } }
impl<T: P, U: P, V: P, R: B> Call<fn(T, U, V) -> R> for (T, U, V) { fn call(f: fn(T, U, V) -> R, a: &[&str]) -> String { f(T::p(a[0]), U::p(a[1]), V::p(a[2])).b() } }
macro_rules! cb {
    (fn_name: $n:ident, RustFn: $f:ty, RustArgs: $a:ty, attrs: [$($x:meta),*], extra: ($op:ident, $args:ident),) => {
        if $op == stringify!($n) { let f: $f = libm::$n; return <$a as Call<$f>>::call(f, $args); }
    };
}
fn eval(op: &str, args: &[&str]) -> String {
    libm_macros::for_each_function! { callback: cb, emit_types: [RustFn, RustArgs], extra: (op, args), }
    "?".into()
}
/// lines `op bits bits ...` -> lines of result bits
pub fn evalref() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut o = String::new();
    for l in s.lines() { let w: Vec<&str> = l.split(' ').collect(); o += &eval(w[0], &w[1..]); o.push('\n') }
    print!("{o}");
}
/// lines of arguments separated by \x01 -> `exit code \x01 stdout` per line
pub fn spawn(bin: &str) {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let l: Vec<&str> = s.lines().collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Vec<std::sync::OnceLock<String>> = l.iter().map(|_| Default::default()).collect();
    std::thread::scope(|sc| {
        for _ in 0..12 { sc.spawn(|| loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= l.len() { break }
            let mut c = std::process::Command::new(bin);
            c.args(l[i].split('\x01').filter(|x| *x != "\x02")).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            let r = match c.output() { Ok(o) => format!("{}\x01{}", o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).replace('\n', "\x02")), Err(e) => format!("-2\x01{e}") };
            let _ = res[i].set(r);
        }); }
    });
    for r in res { println!("{}", r.get().unwrap()) }
}
