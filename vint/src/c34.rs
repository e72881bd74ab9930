//! C34: the generators of test inputs deliver what they announce.
use crate::c30::Lay;
use crate::infra::*;
use libm_test::domain::get_domain;
use libm_test::generate::{edge_cases, edge_cases::EdgeCaseInput, random, random::RandomInput, spaced, spaced::SpacedInput, KnownSize};
use libm_test::{BaseName, CheckBasis, CheckCtx, Float, FloatExt, FloatTy, GeneratorKind, Identifier, MathOp, TupleCall};
use std::collections::{BTreeSet, HashSet};

pub trait Prim: Copy { const INT: bool; fn key(self) -> u128; }
impl Prim for i32 { const INT: bool = true; fn key(self) -> u128 { self as i64 as u128 } }
macro_rules! prim { ($($t:ty)*) => { $(impl Prim for $t { const INT: bool = false; fn key(self) -> u128 { self.to_bits() as u128 } })* } }
prim!(f16 f32 f64 f128);
pub trait Tup: Copy { const N: usize; const INTS: [bool; 3]; fn keys(self) -> [u128; 3]; }
impl<A: Prim> Tup for (A,) { const N: usize = 1; const INTS: [bool; 3] = [A::INT, false, false]; fn keys(self) -> [u128; 3] { [self.0.key(), 0, 0] } }
impl<A: Prim, B: Prim> Tup for (A, B) { const N: usize = 2; const INTS: [bool; 3] = [A::INT, B::INT, false]; fn keys(self) -> [u128; 3] { [self.0.key(), self.1.key(), 0] } }
impl<A: Prim, B: Prim, C: Prim> Tup for (A, B, C) { const N: usize = 3; const INTS: [bool; 3] = [A::INT, B::INT, C::INT]; fn keys(self) -> [u128; 3] { [self.0.key(), self.1.key(), self.2.key()] } }

fn mix(mut z: u64) -> u64 { z = z.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
fn h(x: u128) -> u128 { let a = mix(x as u64 ^ mix((x >> 64) as u64)); ((mix(a) as u128) << 64) | mix(a ^ 0x5555) as u128 | 1 }

/// feeds the tuples of a generator, one by one, while the receiver wants more; the first receiver gets the announced length
type Gen = fn(&CheckCtx, &mut dyn FnMut(u64) -> bool, &mut dyn FnMut([u128; 3]) -> bool);
struct Prod { n: usize, sets: [HashSet<u128>; 3], last: [u128; 3], hs: [u128; 3], chg: [u64; 3], count: u64, sum: u128 }
impl Prod {
    fn new(n: usize) -> Self { Prod { n, sets: Default::default(), last: [u128::MAX; 3], hs: [1; 3], chg: [0; 3], count: 0, sum: 0 } }
    #[inline]
    fn add(&mut self, k: [u128; 3]) {
        for j in 0..self.n {
            if k[j] != self.last[j] || self.count == 0 {
                self.last[j] = k[j];
                self.hs[j] = h(k[j]);
                self.chg[j] += 1;
                if self.chg[j] < 1 << 22 { self.sets[j].insert(k[j]); }
            }
        }
        self.sum = self.sum.wrapping_add(self.hs[0].wrapping_mul(self.hs[1]).wrapping_mul(self.hs[2]));
        self.count += 1;
    }
}
/// the tuples must be the full product of the values of each argument, each tuple once
fn product(c: &CheckCtx, k: usize, gen: Gen, start: &mut dyn FnMut(u64) -> bool) -> Result<Option<[HashSet<u128>; 3]>, String> {
    let mut p = Prod::new(k);
    let (mut announced, mut go) = (0, false);
    let limit = std::cell::Cell::new(0);
    gen(c, &mut |a| { announced = a; limit.set(a.saturating_add(1000)); go = start(a); go }, &mut |x| { p.add(x); p.count <= limit.get() });
    if !go { return Ok(None) }
    let (n, sum) = (p.count, p.sum);
    if n != announced { return Err(format!("{n} items, announced {announced}")) }
    let mut want = 1u128;
    let mut c = 1u128;
    for j in 0..k { want = want.wrapping_mul(p.sets[j].iter().fold(0u128, |s, &x| s.wrapping_add(h(x)))); c *= p.sets[j].len() as u128 }
    if c != n as u128 || want != sum { return Err(format!("{n} items are not the product of {:?} distinct values of each argument, each once", &p.sets.iter().map(|s| s.len()).collect::<Vec<_>>()[..k])) }
    Ok(Some(p.sets))
}
fn lay(t: FloatTy) -> Lay { match t { FloatTy::F16 => Lay { bits: 16, sig: 10 }, FloatTy::F32 => Lay { bits: 32, sig: 23 }, FloatTy::F64 => Lay { bits: 64, sig: 52 }, FloatTy::F128 => Lay { bits: 128, sig: 112 } } }
fn one(l: Lay) -> u128 { let e = l.bits - 1 - l.sig; ((1u128 << (e - 1)) - 1) << l.sig }
fn int(l: Lay, n: u32) -> u128 { // n < 256 as a float
    if n == 0 { return 0 }
    let k = 31 - n.leading_zeros();
    one(l) + ((k as u128) << l.sig) + (((n as u128) << l.sig >> k) & ((1u128 << l.sig) - 1))
}
/// the region on which the routine is defined, as first and last representable value
fn dom(b: BaseName, l: Lay) -> (u128, u128) {
    let (s, inf, one) = (l.sign(), l.inf(), one(l));
    match b.as_str() {
        "acos" | "asin" => (s | one, one),
        "acosh" => (one, inf),
        "atanh" => (l.up(s | one, 1), l.down(one, 1)),
        "log" | "log2" | "log10" | "lgamma" | "lgamma_r" => (1, inf),
        "log1p" => (l.up(s | one, 1), inf),
        "sqrt" => (0, inf),
        _ => (s | inf, inf),
    }
}
fn around(l: Lay, c: u128, near: u128, v: &mut BTreeSet<u128>) {
    for k in 0..near { v.insert(l.up(c, k)); v.insert(l.down(c, k)); }
}
fn canon(l: Lay, v: BTreeSet<u128>) -> BTreeSet<u128> { // reaching zero from either side is the same place
    v.into_iter().map(|x| if x == l.sign() { 0 } else { x }).collect()
}
fn required_float(id: Identifier, arg_count: usize) -> BTreeSet<u128> {
    let l = lay(id.math_op().float_ty);
    let (s, inf, one, near) = (l.sign(), l.inf(), one(l), if arg_count == 3 { 50 } else { 100 });
    let (a, b) = dom(id.base_name(), l);
    let sub = (1u128 << l.sig) - 1;
    let mut v = BTreeSet::new();
    for c in [one, s | one, 0, inf, s | inf, a, b, sub, s | sub] { around(l, c, near, &mut v) }
    let q = 1u128 << (l.sig - 1);
    for c in [inf | q, s | inf | q, s - 1, inf + 1, inf | (q - 1), s | (s - 1), s | (inf + 1), s | inf | (q - 1)] { v.insert(c); }
    for k in (0..l.sig).step_by(l.sig as usize / 5) { around(l, 1 << k, 2, &mut v); around(l, s | (1 << k), 2, &mut v) }
    match id.base_name().as_str() {
        "sin" | "cos" | "tan" | "sincos" => {
            let (p, q) = if l.bits == 32 { (std::f32::consts::PI.to_bits() as u128, std::f32::consts::FRAC_PI_2.to_bits() as u128) } else { (std::f64::consts::PI.to_bits() as u128, std::f64::consts::FRAC_PI_2.to_bits() as u128) };
            for c in [p, q, s | p, s | q] { around(l, c, near, &mut v) }
        }
        "tgamma" => for n in 0..10 { around(l, if n == 0 { 0 } else { s | int(l, n) }, near, &mut v) },
        _ => (),
    }
    let mut v = canon(l, v);
    v.insert(s); // negative zero
    v
}
fn required_int(id: Identifier) -> BTreeSet<i64> {
    let mut c = vec![i32::MIN as i64, i32::MAX as i64, 0];
    if matches!(id.base_name().as_str(), "scalbn" | "ldexp") {
        let l = lay(id.math_op().float_ty);
        let emax = (1i64 << (l.bits - 2 - l.sig)) - 1;
        let emin = 1 - emax;
        let esn = emin - l.sig as i64;
        c.extend([emax, emin, esn, -esn, emax - emin, emin - emax, emax - esn, esn - emax]);
    }
    c.iter().flat_map(|&x| (-99..=99).map(move |d| x + d)).filter(|&x| x >= i32::MIN as i64 && x <= i32::MAX as i64).collect()
}
fn show(v: &[u128]) -> String { v.iter().take(4).map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(", ") }

fn root(total: u64, k: usize) -> u64 { // least n with n^k >= total
    let mut n = (total as f64).powf(1.0 / k as f64) as u64;
    while n > 0 && (n as u128).pow(k as u32) >= total as u128 { n -= 1 }
    while (n as u128).pow(k as u32) < total as u128 { n += 1 }
    n
}
/// inputs per argument
fn iterations(id: Identifier, kind: GeneratorKind, over: Option<u64>, k: usize) -> u64 {
    let big = matches!(id.math_op().float_ty, FloatTy::F64 | FloatTy::F128);
    let mut t: u64 = match kind { GeneratorKind::QuickSpaced => 4_000_000, GeneratorKind::Random => 40_000, _ => 1 << 32 };
    if big && kind != GeneratorKind::Extensive { t *= 4 }
    t <<= k - 1;
    if id.base_name().as_str() == "fma" { t = t * 3 / 2 }
    if id.as_str() == "fmodf128" && kind != GeneratorKind::Random { t /= 50 }
    root(over.unwrap_or(t.max(10_000)), k)
}
fn int_range(id: Identifier, kind: GeneratorKind) -> (i64, i64) {
    if !matches!(id.base_name().as_str(), "jn" | "yn") { return (i32::MIN as i64, i32::MAX as i64) }
    if kind == GeneratorKind::Extensive { (-0xfff, 0xfffff) } else { (-0xff, 0xffff) }
}
fn ctx(id: Identifier, basis: CheckBasis, kind: GeneratorKind, over: Option<u64>) -> CheckCtx {
    let mut c = CheckCtx::new(id, basis, kind);
    if let Some(n) = over { c.override_iterations(n) }
    c
}
type Work = Box<dyn Fn() + Send + Sync>;
fn fail(op: &str, input: String, r: Result<Result<(), String>, String>, want: &str) {
    if let Ok(Err(m)) | Err(m) = r { violation(op, &input, &m, want) }
}
#[derive(Clone, Copy)]
struct Ops { id: Identifier, k: usize, ints: [bool; 3], region: fn(Identifier, usize) -> (u128, u128), edges: Gen, spaced: Gen, random: Gen }
fn drive<T: Tup>(it: impl Iterator<Item = T>, n: u64, start: &mut dyn FnMut(u64) -> bool, item: &mut dyn FnMut([u128; 3]) -> bool) {
    if start(n) { for x in it { if !item(x.keys()) { break } } }
}
fn region<F: FloatExt>(id: Identifier, j: usize) -> (u128, u128) where F::Int: std::fmt::LowerHex {
    let d = get_domain::<F, i8>(id, j).unwrap_float();
    (Prim2::k(d.range_start()), Prim2::k(d.range_end()))
}
fn ops<Op: MathOp>() -> Ops where Op::RustArgs: EdgeCaseInput<Op> + SpacedInput<Op> + RandomInput + Tup, Op::FTy: FloatExt {
    Ops {
        id: Op::IDENTIFIER, k: <Op::RustArgs as Tup>::N, ints: <Op::RustArgs as Tup>::INTS, region: region::<Op::FTy>,
        edges: |c, s, f| { let (it, n) = edge_cases::get_test_cases::<Op>(c); drive(it, n, s, f) },
        spaced: |c, s, f| { let (it, n) = spaced::get_test_cases::<Op>(c); drive(it, n, s, f) },
        random: |c, s, f| { let (it, n) = random::get_test_cases::<Op::RustArgs>(c); drive(it, n, s, f) },
    }
}
fn collect(o: Ops, quick: &mut Vec<(u64, Work)>) {
    let Ops { id, k, ints, .. } = o;
    let l = lay(id.math_op().float_ty);
    let th = g().thorough;
    // the region
    quick.push((1, Box::new(move || for j in 0..k {
        if ints[j] { continue }
        let r = guard(|| {
            let (a, b) = (o.region)(id, j);
            let w = dom(id.base_name(), l);
            if (a & !l.sign() == 0 && w.0 & !l.sign() == 0 || a == w.0) && b == w.1 { Ok(()) } else { Err(format!("{a:#x} to {b:#x}")) }
        });
        let w = dom(id.base_name(), l);
        fail("region", format!("{id} argument {j}"), r, &format!("{:#x} to {:#x}", w.0, w.1));
        count("region", 1, 1);
    })));
    // edge cases
    let weight = if k == 3 { 1000 } else { 20 * k as u64 };
    quick.push((weight, Box::new(move || for basis in [CheckBasis::None, CheckBasis::Musl, CheckBasis::Mpfr] {
        if k == 3 && basis != CheckBasis::Mpfr && !th { continue }
        let what = format!("{id} {basis:?}");
        let c = ctx(id, basis, GeneratorKind::EdgeCases, None);
        let mut n = 0;
        let r = guard(|| {
            let s = product(&c, k, o.edges, &mut |a| { n = a; true })?.unwrap();
            for j in 0..k {
                if ints[j] {
                    let miss: Vec<i64> = required_int(id).into_iter().filter(|&x| !s[j].contains(&(x as u128))).collect();
                    if !miss.is_empty() { return Err(format!("argument {j} misses {} values: {:?}", miss.len(), &miss[..miss.len().min(4)])) }
                } else {
                    let miss: Vec<u128> = required_float(id, k).into_iter().filter(|x| !s[j].contains(x)).collect();
                    if !miss.is_empty() { return Err(format!("argument {j} misses {} patterns: {}", miss.len(), show(&miss))) }
                }
            }
            Ok(())
        });
        fail("edge cases", what, r, "the product of the points of interest of each argument, each once");
        count("edge cases", 1, 1); calls(n);
    })));
    // evenly spaced and exhaustive
    let rs: &[u64] = if k == 1 { &[2, 3, 4, 5, 17, 100, 1000, 4097, 65535, 65536, 65537, 1 << 20] } else if k == 2 { &[2, 3, 5, 16, 17, 100, 1000, 65535, 65536, 65537, 100000] } else { &[2, 3, 5, 17, 100, 127, 1000, 20000] };
    for kind in [GeneratorKind::QuickSpaced, GeneratorKind::Extensive] {
        for over in rs.iter().map(|r| Some(r.pow(k as u32))).chain([None]).chain(if k > 1 { vec![Some(6u64.pow(k as u32) + 1), Some(7u64.pow(k as u32) - 1)] } else { vec![] }) {
            quick.push((10, Box::new(move || {
                let c = ctx(id, CheckBasis::Mpfr, kind, over);
                let n = iterations(id, kind, over, k);
                let mut total = 1u128;
                let full = l.bits <= 32 && n as u128 >= 1u128 << l.bits;
                for j in 0..k {
                    let (a, b) = dom(id.base_name(), l);
                    let steps = if ints[j] { let (a, b) = int_range(id, kind); ((n - 1).min((b - a) as u64) + 1) as u128 } else if full { 1 << l.bits } else { (n as u128 - 1).min(l.rank(b).wrapping_sub(l.rank(a)) as u128) + 1 };
                    total *= steps;
                }
                let limit = if th { 1u128 << 26 } else { 1 << 21 };
                let mut looked = 0;
                let r = guard(|| {
                    let mut announced = 0;
                    let Some(s) = product(&c, k, o.spaced, &mut |a| { announced = a; a as u128 == total && total <= limit })? else {
                        if announced as u128 != total { return Err(format!("announced {announced} items")) }
                        // only a prefix: it must stay inside the region
                        let mut bad = None;
                        (o.spaced)(&c, &mut |_| true, &mut |y| {
                            looked += 1;
                            for j in 0..k { if !ints[j] && !full { let y = y[j]; let (a, b) = dom(id.base_name(), l); if l.nan(y) || l.rank(y) < l.rank(a) || l.rank(y) > l.rank(b) { bad = Some(format!("argument {j} is {y:#x}")) } } }
                            looked < 2000
                        });
                        return bad.map_or(Ok(()), Err);
                    };
                    looked = announced;
                    for j in 0..k {
                        let bad = if ints[j] {
                            let (x, y) = int_range(id, kind);
                            let st = ((y - x) as u64 / (n - 1)).max(1);
                            let w = (n - 1).min((y - x) as u64) + 1;
                            s[j].len() as u64 != w || (0..w).any(|i| !s[j].contains(&((x + (i * st) as i64) as u128)))
                        } else if full {
                            s[j].len() as u128 != 1 << l.bits
                        } else {
                            let (x, y) = dom(id.base_name(), l);
                            let d = l.rank(y).wrapping_sub(l.rank(x)) as u128;
                            let w = (n as u128 - 1).min(d) + 1;
                            let st = (d / (n as u128 - 1)).max(1);
                            s[j].len() as u128 != w || (0..w).any(|i| { let v = l.up(x, i * st); !s[j].contains(&v) && !(v & !l.sign() == 0 && s[j].contains(&(v ^ l.sign()))) })
                        };
                        if bad { let mut v: Vec<u128> = s[j].iter().copied().collect(); v.sort(); return Err(format!("argument {j} takes {} values: {} ...", v.len(), show(&v))) }
                    }
                    Ok(())
                });
                // listed in known_findings.txt
                let known = r.is_err() && n == 2 && (0..k).any(|j| ints[j]) && int_range(id, kind).1 == i32::MAX as i64;
                fail("spaced", if known { "integer argument with two points over the whole i32 range".into() } else { format!("{id} {kind:?} {over:?}") }, r, &format!("{total} items: {}", if full { "every pattern" } else { "the region in equal steps" }));
                count("spaced", 1, 1); calls(looked);
            })));
        }
    }
    // random
    for over in [None, Some(1), Some(2), Some(999), Some(if k == 1 { 5000 } else { 1 << 18 })] {
        for kind in [GeneratorKind::Random, GeneratorKind::Extensive] {
            quick.push((4, Box::new(move || {
                let c = ctx(id, CheckBasis::Musl, kind, over);
                let n = iterations(id, kind, over, k);
                let total = (n as u128).pow(k as u32);
                let mut looked = 0;
                let r = guard(|| {
                    let (mut zeros, mut ones, mut m, mut hash) = ([0u128; 3], [0u128; 3], 0u64, 0u128);
                    let (mut lo, mut hi) = ([i64::MAX; 3], [i64::MIN; 3]);
                    let (mut a, mut go) = (0, false);
                    (o.random)(&c, &mut |n| { a = n; go = n as u128 == total && n <= 1 << 20; go }, &mut |y| {
                        m += 1;
                        for j in 0..k { zeros[j] |= !y[j]; ones[j] |= y[j]; lo[j] = lo[j].min(y[j] as i64); hi[j] = hi[j].max(y[j] as i64); hash = h(hash ^ y[j]) }
                        m <= 1 << 20
                    });
                    if a as u128 != total { return Err(format!("announced {a} items")) }
                    if !go { return Ok(()) }
                    if m != a { return Err(format!("{m} items, announced {a}")) }
                    looked = m;
                    let mask = if l.bits == 128 { u128::MAX } else { (1u128 << l.bits) - 1 };
                    for j in 0..k {
                        let (x, y) = int_range(id, kind);
                        if ints[j] && (lo[j] < x || hi[j] > y) { return Err(format!("integers from {} to {}", lo[j], hi[j])) }
                        if ints[j] && n >= 100 && (lo[j] > x + (y - x) / 4 || hi[j] < y - (y - x) / 4) { return Err(format!("integers from {} to {} only", lo[j], hi[j])) }
                        if !ints[j] && n >= 100 && (zeros[j] & mask != mask || ones[j] & mask != mask) { return Err(format!("some bits of argument {j} never change")) }
                    }
                    let mut again = 0u128;
                    (o.random)(&c, &mut |_| true, &mut |y| { for j in 0..k { again = h(again ^ y[j]) } true });
                    if hash != again { return Err("a second run yields other values".into()) }
                    Ok(())
                });
                fail("random", format!("{id} {kind:?} {over:?}"), r, &format!("{total} items over all patterns, integers {:?}, the same in every run", int_range(id, kind)));
                count("random", 1, 1); calls(looked);
            })));
        }
    }
}
trait Prim2 { fn k(self) -> u128; }
impl<F: Float> Prim2 for F where F::Int: std::fmt::LowerHex { fn k(self) -> u128 { u128::from_str_radix(&format!("{:x}", self.to_bits()), 16).unwrap() } }

macro_rules! cb { (fn_name: $n:ident, attrs: [$($x:meta),*], extra: $w:ident,) => { collect(ops::<libm_test::op::$n::Routine>(), &mut $w); }; }
/// child process: what the environment selects
pub fn probe() {
    quiet();
    let ids: Vec<&str> = Identifier::ALL.iter().filter(|&&i| !libm_test::skip_extensive_test(&ctx(i, CheckBasis::None, GeneratorKind::Extensive, None))).map(|i| i.as_str()).collect();
    println!("run {}", ids.join(","));
    let c = ctx(Identifier::Sinf, CheckBasis::None, GeneratorKind::Extensive, None);
    println!("iterations {}", random::get_test_cases::<(f32,)>(&c).1);
    let c = ctx(Identifier::Sin, CheckBasis::None, GeneratorKind::Random, Some(50));
    println!("random {:x}", random::get_test_cases::<(f64,)>(&c).0.fold(0u128, |o, x| h(o ^ x.0.to_bits() as u128)));
}
fn child(env: &[(&str, &str)]) -> Option<Vec<String>> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["c34probe", "x"]).env_remove("LIBM_SEED").stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    for (k, v) in env { c.env(k, v); }
    let o = c.output().ok()?;
    if !o.status.success() { return None }
    Some(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.split_once(' ').map_or("", |x| x.1).to_string()).collect())
}
extern "C" { fn open(p: *const u8, f: i32, ...) -> i32; fn dup2(a: i32, b: i32) -> i32; }
/// the generators log to standard error
pub fn quiet() { unsafe { let f = open(c"/dev/null".as_ptr() as *const u8, 1); if f >= 0 { dup2(f, 2); } } }
const SEED: &str = "0123456789abcdefghijklmnopqrstuv";
pub fn c34() {
    std::env::set_var("LIBM_SEED", SEED);
    std::env::remove_var("LIBM_EXTENSIVE_TESTS");
    std::env::remove_var("LIBM_EXTENSIVE_ITERATIONS");
    quiet();
    let mut work: Vec<(u64, Work)> = vec![];
    libm_macros::for_each_function! { callback: cb, extra: work, }
    // the wrapper that announces a length
    for actual in 0..40u64 { for total in 0..40u64 {
        let r = guard(|| {
            let mut it = KnownSize::new(0..actual, total);
            for i in 0..actual {
                if i <= total && it.size_hint() != ((total - i) as usize, Some((total - i) as usize)) { return Err(format!("length {:?} after {i} items", it.size_hint())) }
                if it.next() != Some(i) { return Err(format!("item {i} is missing")) }
            }
            let e = guard(|| it.next());
            if e.is_ok() != (actual == total) || matches!(e, Ok(Some(_))) { return Err(format!("{e:?} at the end")) }
            Ok(())
        });
        fail("announced length", format!("{actual} items, announced {total}"), r, "the items, then an assertion if the announced length is wrong");
    } }
    count("announced length", 1600, 1);
    calls_of_tuples();
    environment();
    work.sort_by_key(|w| std::cmp::Reverse(w.0));
    par("generators", work.len() as u64, |i| (work[i as usize].1)());
    note("every routine: region of every argument; edge cases (every tuple, checked to be the full product without repetition and to contain every point of interest); spaced inputs for 2..65537 and default numbers of points with lengths computed and sets compared; random inputs for several counts");
    note("environment: every routine name and group alone, pairs, unknown names, iteration counts, seeds of every length up to 40");
    sample("edge cases fmaf Mpfr"); sample("spaced scalbnf16 Extensive Some(4294967296)"); sample("random jn Random Some(262144)");
}
fn environment() {
    let all: Vec<(&str, FloatTy)> = Identifier::ALL.iter().map(|i| (i.as_str(), i.math_op().float_ty)).collect();
    let sel = |items: &str| -> Option<BTreeSet<String>> {
        let mut s = BTreeSet::new();
        for x in items.split(',').filter(|x| !x.is_empty()) {
            let f = |t: FloatTy| all.iter().filter(move |y| y.1 == t).map(|y| y.0.to_string());
            match x {
                "all" => s.extend(all.iter().map(|y| y.0.to_string())),
                "all_f16" => s.extend(f(FloatTy::F16)),
                "all_f32" => s.extend(f(FloatTy::F32)),
                "all_f64" => s.extend(f(FloatTy::F64)),
                "all_f128" => s.extend(f(FloatTy::F128)),
                x => { if !all.iter().any(|y| y.0 == x) { return None } s.insert(x.to_string()); }
            }
        }
        Some(s)
    };
    let mut envs: Vec<String> = all.iter().map(|x| x.0.to_string()).collect();
    let groups = ["all", "all_f16", "all_f32", "all_f64", "all_f128", "sin", "fmaf128", "ceilf16"];
    for a in groups { envs.push(a.into()); for b in groups { envs.push(format!("{a},{b}")); for c in &groups[1..7] { envs.push(format!("{a},{b},{c}")) } } }
    for x in ["", ",", ",,sin", "sin,", "sin,,cos", "Sin", "sin cos", "nosuch", "sin,nosuch", "all_f8", "ALL", "all ", "sin\n", "all_"] { envs.push(x.into()) }
    par("environment", envs.len() as u64, |i| {
        let e = &envs[i as usize];
        let got = child(&[("LIBM_EXTENSIVE_TESTS", e), ("LIBM_SEED", SEED)]);
        let want = sel(e);
        let g = got.as_ref().map(|v| v[0].split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<BTreeSet<_>>());
        if g != want { violation("environment", &format!("LIBM_EXTENSIVE_TESTS={e}"), &g.map_or("refused".into(), |s| format!("{} routines: {:?}", s.len(), s.iter().take(5).collect::<Vec<_>>())), &want.map_or("refused".into(), |s| format!("{} routines", s.len()))) }
    });
    count("environment", envs.len() as u64, 1);
    let its = ["1", "2", "1000", "65536", "4294967296", "18446744073709551615", "", "x", "-1", "1.5", "18446744073709551616"];
    for e in its {
        let want = e.parse::<u64>().ok().map(|x| x.max(10_000));
        let got = child(&[("LIBM_EXTENSIVE_ITERATIONS", e), ("LIBM_SEED", SEED)]).and_then(|v| v[1].parse::<u64>().ok());
        if got != want { violation("environment", &format!("LIBM_EXTENSIVE_ITERATIONS={e}"), &format!("{got:?}"), &format!("{want:?}")) }
    }
    if let Some(v) = child(&[("LIBM_SEED", SEED)]) { if v[1] != "4294967296" { violation("environment", "no LIBM_EXTENSIVE_ITERATIONS", &v[1], "4294967296") } }
    let mut seen: BTreeSet<String> = Default::default();
    for n in 0..=40usize {
        let e = "x".repeat(n);
        let (a, b) = (child(&[("LIBM_SEED", &e)]), child(&[("LIBM_SEED", &e)]));
        if a.is_some() != (n == 32) || a != b { violation("environment", &format!("LIBM_SEED of {n} characters"), &format!("{a:?} {b:?}"), if n == 32 { "accepted, twice the same" } else { "refused" }) }
        if let Some(v) = a { seen.insert(v[2].clone()); }
    }
    for i in 0..32 {
        let mut s = SEED.as_bytes().to_vec();
        s[i] ^= 1;
        let s = String::from_utf8(s).unwrap();
        match child(&[("LIBM_SEED", &s)]) { Some(v) => if !seen.insert(v[2].clone()) { violation("environment", &format!("LIBM_SEED={s}"), "values of another seed", "other values") }, None => violation("environment", &format!("LIBM_SEED={s}"), "refused", "accepted") }
    }
    match (child(&[]), child(&[])) { (Some(a), Some(b)) if a[2] != b[2] => (), x => violation("environment", "no LIBM_SEED", &format!("{x:?}"), "two different sequences") }
    count("environment", its.len() as u64 + 41 * 2 + 34, 1);
}
fn calls_of_tuples() {
    // results show which argument went where
    fn f1(a: i32) -> i64 { a as i64 * 3 + 1 }
    fn f2(a: i32, b: f32) -> (i32, u32) { (a, b.to_bits()) }
    fn f3(a: f64, b: f64, c: f64) -> [u64; 3] { [a.to_bits(), b.to_bits(), c.to_bits()] }
    fn o1(a: f32, b: &mut i32) -> u32 { let was = *b; *b = a as i32 * 7 + 5; a.to_bits() ^ was as u32 }
    fn o2(a: f32, b: f32, c: &mut i32) -> (u32, u32, i32) { let was = *c; *c = a as i32 * 100 + b as i32; (a.to_bits(), b.to_bits(), was) }
    fn o3(a: f32, b: &mut f32, c: &mut f32) { *b = a + 1.0 + *c; *c = a + 100.0 }
    fn p1(a: i32) -> i32 { if a == 3 { panic!("probe {a}") } a }
    let mut n = 0;
    let mut t = |name: &str, i: String, ok: bool| { n += 1; if !ok { violation("call with a tuple", &format!("{name} {i}"), "arguments or results in other places", "every argument and every result in its place") } };
    for a in -9..9i32 {
        t("(T)", format!("{a}"), (a,).call(f1 as fn(i32) -> i64) == f1(a) && (a,).call_intercept_panics(f1 as fn(i32) -> i64) == f1(a));
        t("(T, &mut)", format!("{a}"), (a as f32,).call(o1 as fn(f32, &mut i32) -> u32) == ((a as f32).to_bits(), a * 7 + 5));
        t("(T, &mut, &mut)", format!("{a}"), (a as f32,).call(o3 as for<'a> fn(f32, &'a mut f32, &'a mut f32)) == (a as f32 + 1.0, a as f32 + 100.0));
        let r = guard(|| (a,).call_intercept_panics(p1 as fn(i32) -> i32));
        t("panic", format!("{a}"), if a == 3 { matches!(&r, Err(m) if m.contains("probe 3")) } else { r == Ok(a) });
        for b in -9..9i32 {
            t("(T, U)", format!("{a} {b}"), (a, b as f32).call(f2 as fn(i32, f32) -> (i32, u32)) == f2(a, b as f32) && (a, b as f32).call_intercept_panics(f2 as fn(i32, f32) -> (i32, u32)) == f2(a, b as f32));
            t("(T, U, &mut)", format!("{a} {b}"), (a as f32, b as f32).call(o2 as fn(f32, f32, &mut i32) -> (u32, u32, i32)) == (((a as f32).to_bits(), (b as f32).to_bits(), 0), a * 100 + b));
            for c in -9..9i32 { let (x, y, z) = (a as f64, b as f64, c as f64); t("(T, U, V)", format!("{a} {b} {c}"), (x, y, z).call(f3 as fn(f64, f64, f64) -> [u64; 3]) == f3(x, y, z)) }
        }
    }
    count("call with a tuple", n, 1);
}
