//! C31: the test comparator accepts exactly the results within tolerance.
use crate::infra::*;
use libm_test::{default_ulp, BaseName as B, CheckBasis, CheckCtx, CheckOutput, Float, GeneratorKind as GK, Identifier as I, MathOp};

/// the value of a result component, layout included
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V { F(u32, u32, u128), N(i64) } // (bits, significand bits, pattern) | integer
fn fnan(w: u32, s: u32, b: u128) -> bool { let m = b & ((1 << (w - 1)) - 1); m > (((1u128 << (w - 1)) - 1) >> s << s) }
fn finf(w: u32, s: u32, b: u128) -> bool { let m = b & ((1 << (w - 1)) - 1); m == (((1u128 << (w - 1)) - 1) >> s << s) }
#[derive(Clone, Copy, Debug)]
pub enum In { F(f64, i8), N(i32) } // an input: float value (and -1, 1 for the zeros), or integer

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Pass, Ulp(u32), Fail, Skip, Bits }
/// what the documented special cases of precision.rs say (x86-64): the reference
fn special(c: &CheckCtx, inp: &[In], a: V, e: V) -> Act {
    let x = |i: usize| match inp[i] { In::F(v, _) => v, In::N(n) => n as f64 };
    let nz = |i: usize| matches!(inp[i], In::F(_, -1));
    let pz = |i: usize| matches!(inp[i], In::F(_, 1));
    let (mus, mpf) = (c.basis == CheckBasis::Musl, c.basis == CheckBasis::Mpfr);
    let b = c.base_name;
    let xf = |skip: bool| if skip { Act::Skip } else { Act::Fail };
    if let (V::N(a), V::N(e)) = (a, e) {
        if inp.len() == 1 && mpf && b == B::LgammaR && x(0) == f64::NEG_INFINITY && a.abs() == e.abs() { return Act::Fail }
        return Act::Pass;
    }
    let (V::F(w, s, ab), V::F(_, _, eb)) = (a, e) else { unreachable!() };
    let (an, en, ai, ei) = (fnan(w, s, ab), fnan(w, s, eb), finf(w, s, ab), finf(w, s, eb));
    let sg = 1u128 << (w - 1);
    match inp {
        [In::F(..)] => {
            let f32in = c.fn_ident.math_op().float_ty == libm_test::FloatTy::F32;
            let f64in = c.fn_ident.math_op().float_ty == libm_test::FloatTy::F64;
            if f32in {
                if b == B::Expm1 && x(0).is_finite() && x(0) > 80.0 && ai && !ei { return xf(mus) }
                if b == B::Sinh && x(0).abs() > 80.0 && an { return xf(mus) }
                if matches!(b, B::Lgamma | B::LgammaR) && x(0) > 4e36f32 as f64 && ei && !ai { return Act::Skip }
                if b == B::J0 && x(0) < -1e34f32 as f64 { return Act::Skip }
            }
            if f64in && b == B::J0 && x(0) < -1e300 { return Act::Skip }
            if f32in || f64in {
                if b == B::Acosh && x(0) < -1.0 && !(an && en) { return xf(mus) }
                if matches!(b, B::Lgamma | B::LgammaR) && x(0) < 0.0 && x(0).is_finite() { return Act::Skip }
                if b == B::Fabs && x(0).is_nan() { return if mpf { Act::Pass } else { Act::Bits } }
            }
            Act::Pass
        }
        [In::F(..), In::F(..)] => {
            if mpf && ((x(0).is_nan() && an && en) || x(1).is_nan()) { return Act::Skip }
            if b == B::Fmin && nz(0) && pz(1) && eb == sg && ab == 0 { return Act::Fail }
            if b == B::Fmax && nz(0) && pz(1) && eb == 0 && ab == sg { return Act::Fail }
            if matches!(b, B::Fmax | B::Fmin) && mus && (x(0).is_nan() ^ x(1).is_nan()) && en { return Act::Fail }
            Act::Pass
        }
        [In::N(n), In::F(..)] => {
            let f32in = c.fn_ident.math_op().float_ty == libm_test::FloatTy::F32;
            if f32in && mpf && b == B::Yn && *n > 200 && !ei && ai { return Act::Fail }
            let bes = matches!(b, B::Jn | B::Yn);
            if mpf && bes && x(1) == f64::NEG_INFINITY && ab & !sg == 0 && eb & !sg == 0 { return Act::Fail }
            if mus && c.fn_ident == I::Ynf && !ei && ai && (eb & !sg).abs_diff(ab & !sg) < 10_000_000 { return Act::Skip }
            if mus && bes { if *n > 4000 { return Act::Skip } else if *n > 100 { return Act::Ulp(1_000_000) } }
            Act::Pass
        }
        _ => Act::Pass,
    }
}
/// does the comparison accept?
fn model(c: &CheckCtx, inp: &[In], a: V, e: V) -> bool {
    let act = special(c, inp, a, e);
    if let (V::N(a), V::N(e)) = (a, e) {
        return if c.gen_kind == GK::List { a == e } else { match act { Act::Fail => a != e, _ => a == e } };
    }
    let (V::F(w, s, ab), V::F(_, _, eb)) = (a, e) else { unreachable!() };
    let biteq = c.gen_kind == GK::List && c.basis != CheckBasis::Musl;
    let act = if biteq { Act::Pass } else { act };
    let mut ulp = c.ulp;
    match act { Act::Skip => return true, Act::Bits => return ab == eb, Act::Ulp(u) => ulp = u, _ => () }
    let near = || {
        let (an, en) = (fnan(w, s, ab), fnan(w, s, eb));
        if an && en { return !(biteq && c.basis == CheckBasis::None) || ab == eb }
        if an || en || (ab ^ eb) >> (w - 1) != 0 || finf(w, s, ab) != finf(w, s, eb) { return false }
        ab.abs_diff(eb) <= ulp as u128
    };
    if act == Act::Fail { !near() } else { near() }
}
/// results that can be laid out as components
pub trait Res: Copy + std::fmt::Debug + Sync + Send { const N: usize; fn parts(self) -> [V; 2]; fn lay() -> [Option<(u32, u32)>; 2]; fn build(p: [u128; 2]) -> Self; }
macro_rules! scal { ($($t:ident $u:ty),*) => { $(impl Res for $t {
    const N: usize = 1;
    fn parts(self) -> [V; 2] { [V::F(<$t as Float>::BITS, <$t as Float>::SIG_BITS, self.to_bits() as u128), V::N(0)] }
    fn lay() -> [Option<(u32, u32)>; 2] { [Some((<$t as Float>::BITS, <$t as Float>::SIG_BITS)), None] }
    fn build(p: [u128; 2]) -> Self { <$t>::from_bits(p[0] as $u) }
})* } }
scal!(f16 u16, f32 u32, f64 u64, f128 u128);
macro_rules! ints { ($($t:ident),*) => { $(impl Res for $t {
    const N: usize = 1;
    fn parts(self) -> [V; 2] { [V::N(self as i64), V::N(0)] }
    fn lay() -> [Option<(u32, u32)>; 2] { [None, None] }
    fn build(p: [u128; 2]) -> Self { p[0] as $t }
})* } }
ints!(i32, u32, i64, u64);
macro_rules! pair { ($($a:ident $b:ident),*) => { $(impl Res for ($a, $b) {
    const N: usize = 2;
    fn parts(self) -> [V; 2] { [self.0.parts()[0], self.1.parts()[0]] }
    fn lay() -> [Option<(u32, u32)>; 2] { [<$a as Res>::lay()[0], <$b as Res>::lay()[0]] }
    fn build(p: [u128; 2]) -> Self { (<$a as Res>::build([p[0], 0]), <$b as Res>::build([p[1], 0])) }
})* } }
pair!(f32 i32, f64 i32, f32 f32, f64 f64);
/// inputs: benign ones first, then those at the edges of the special cases
pub trait Args: Copy + std::fmt::Debug + Sync + Send { fn list() -> Vec<Self>; fn vals(self) -> Vec<In>; const BENIGN: usize; }
fn infl<F: Float + Into64>(x: F) -> In { In::F(x.as64(), if x != F::ZERO { 0 } else if x.is_sign_negative() { -1 } else { 1 }) }
pub trait Into64 { fn as64(self) -> f64; }
macro_rules! i64x { ($($t:ty),*) => { $(impl Into64 for $t { fn as64(self) -> f64 { self as f64 } })* } }
i64x!(f16, f32, f64, f128);
macro_rules! args { ($($t:ident),*) => { $(
    impl Args for ($t,) {
        const BENIGN: usize = 1;
        fn list() -> Vec<Self> {
            let mut v = vec![0.5 as $t];
            for c in [80.0 as $t, 1.0, 4e36f64 as $t, 4e36f32 as $t, 1e34f64 as $t, 1e34f32 as $t, 1e300f64 as $t, 3.4e38f64 as $t, 10.0, 100.0, 1e10f64 as $t, 1e35f64 as $t, 1e37f64 as $t, 1e299f64 as $t, 1e301f64 as $t, 2.0, 0.25, 79.0, 81.0, 0.0, 1e-30f64 as $t] {
                for x in [c.next_down(), c, c.next_up()] { v.push(x); v.push(-x) }
            }
            v.extend([$t::INFINITY, $t::NEG_INFINITY, $t::NAN, -$t::NAN, $t::MAX, $t::MIN]);
            v.into_iter().map(|x| (x,)).collect()
        }
        fn vals(self) -> Vec<In> { vec![infl(self.0)] }
    }
    impl Args for ($t, $t) {
        const BENIGN: usize = 1;
        fn list() -> Vec<Self> {
            let p = [0.75 as $t, 0.0, -0.0, 1.0, -1.0, $t::from_bits(1), -$t::from_bits(1), $t::INFINITY, $t::NEG_INFINITY, $t::NAN, -$t::NAN];
            let mut v = vec![];
            for x in p { for y in p { v.push((x, y)) } }
            v
        }
        fn vals(self) -> Vec<In> { vec![infl(self.0), infl(self.1)] }
    }
    impl Args for ($t, $t, $t) {
        const BENIGN: usize = 1;
        fn list() -> Vec<Self> {
            let p = [0.75 as $t, -0.0, $t::INFINITY, $t::NAN];
            let mut v = vec![];
            for x in p { for y in p { for z in p { v.push((x, y, z)) } } }
            v
        }
        fn vals(self) -> Vec<In> { vec![infl(self.0), infl(self.1), infl(self.2)] }
    }
    impl Args for ($t, i32) {
        const BENIGN: usize = 1;
        fn list() -> Vec<Self> {
            let mut v = vec![];
            for x in [0.75 as $t, -0.0, $t::NEG_INFINITY, $t::NAN] { for n in [2, 0, -1, 101, 201, 4001, i32::MAX] { v.push((x, n)) } }
            v
        }
        fn vals(self) -> Vec<In> { vec![infl(self.0), In::N(self.1)] }
    }
    impl Args for (i32, $t) {
        const BENIGN: usize = 1;
        fn list() -> Vec<Self> {
            let mut v = vec![];
            for x in [0.75 as $t, 0.0, -0.0, -1.0, 100.0, $t::INFINITY, $t::NEG_INFINITY, $t::NAN] { for n in [2, 0, -1, 1, 50, 99, 100, 101, 102, 199, 200, 201, 202, 3999, 4000, 4001, 4002, 5000, i32::MAX, i32::MIN, -101, -4001] { v.push((n, x)) } }
            v
        }
        fn vals(self) -> Vec<In> { vec![In::N(self.0), infl(self.1)] }
    }
)* } }
args!(f16, f32, f64, f128);

/// a few results of a component, all relations of sign, class and distance among them
fn few(l: Option<(u32, u32)>, big: bool) -> Vec<u128> {
    let Some((w, s)) = l else { return vec![0, 1, (-1i32) as u32 as u128, i32::MAX as u128, 7] };
    let inf = ((1u128 << (w - 1)) - 1) >> s << s;
    let one = (inf >> s >> 1) << s;
    let mut v = vec![0, 1, one, one + 1, inf - 1, inf, inf | 1 << (s - 1)];
    if big { v.push(inf | 1) }
    if w >= 32 && big { v.extend([one + 500_000, inf - 9_999_999, inf - 10_000_000, inf - 10_000_001, one + 1_000_000, one + 1_000_001]) }
    let n: Vec<u128> = v.iter().map(|x| x | 1 << (w - 1)).collect();
    v.extend(n);
    v
}
fn many(l: Option<(u32, u32)>, th: bool) -> Vec<u128> {
    let Some((w, s)) = l else { return few(None, true) };
    let m = (1u128 << (w - 1)) - 1;
    let inf = m >> s << s;
    let mut v: Vec<u128> = vec![];
    for i in (0..w - 1).step_by(if th { 1 } else { [1, 4, 8, 14][(w / 32).min(3) as usize] }) { for d in [0, 1] { v.push((1u128 << i).wrapping_add(d)); v.push((1u128 << i).wrapping_sub(d)) } }
    for d in 0..3u128 { for x in [0, inf, 1 << s, (inf >> s >> 1) << s, inf | 1 << (s - 1), m] { v.push(x.wrapping_add(d) & m); v.push(x.wrapping_sub(d) & m) } }
    let n: Vec<u128> = v.iter().map(|x| x | 1 << (w - 1)).collect();
    v.extend(n);
    v.sort(); v.dedup();
    v
}
const GENS: [GK; 5] = [GK::Random, GK::List, GK::EdgeCases, GK::Extensive, GK::QuickSpaced];
const BASES: [CheckBasis; 3] = [CheckBasis::None, CheckBasis::Musl, CheckBasis::Mpfr];
fn one<R: Res + CheckOutput<A>, A: Args>(name: &str, c: &CheckCtx, inp: A, iv: &[In], ab: [u128; 2], eb: [u128; 2]) {
    let (a, e) = (R::build(ab), R::build(eb));
    let (ap, ep) = (a.parts(), e.parts());
    let want = (0..R::N).all(|i| model(c, iv, ap[i], ep[i]));
    let got = guard(|| a.validate(e, inp, c).is_ok());
    if got.as_ref().ok() != Some(&want) {
        violation(&format!("validate {name}"), &format!("input={inp:?} actual={:x?} expected={:x?} ulp={} basis={:?} gen={:?}", &ab[..R::N], &eb[..R::N], c.ulp, c.basis, c.gen_kind),
            &match got { Ok(true) => "accepted".into(), Ok(false) => "rejected".into(), Err(m) => m }, if want { "accepted" } else { "rejected" });
    }
}
fn routine<R: Res + CheckOutput<A>, A: Args>(name: &'static str, id: I) {
    let lay = R::lay();
    let th = g().thorough;
    let list = A::list();
    let mut jobs: Vec<(CheckCtx, usize)> = vec![];
    for b in BASES { for gk in GENS {
        let c = CheckCtx::new(id, b.clone(), gk);
        // the context describes the routine
        if c.fn_name != name || c.fn_ident != id || c.base_name != id.base_name() || c.base_name_str != id.base_name().as_str() || c.basis != b || c.gen_kind != gk || c.override_iterations.is_some() || c.ulp != default_ulp(&c) {
            violation("CheckCtx::new", name, &format!("{c:?}"), "a context that describes the routine");
        }
        for i in 0..list.len() { if !th && i > 4 && !matches!(gk, GK::Random | GK::List) { break } jobs.push((c.clone(), i)) }
    } }
    // all inputs, all pairs of a few results
    let big = th || matches!(id.base_name(), B::Jn | B::Yn);
    let f: [Vec<u128>; 2] = [few(lay[0], big), few(lay[1], big)];
    let n2 = if R::N == 2 { if th { f[1].len() } else { 3 } } else { 1 };
    par(name, jobs.len() as u64, |j| {
        let (c, i) = &jobs[j as usize];
        let iv = list[*i].vals();
        for &a in &f[0] { for &e in &f[0] {
            if R::N == 1 { one::<R, A>(name, c, list[*i], &iv, [a, 0], [e, 0]) } else {
                // second component equal, and different
                for k in 0..n2 { let (p, q) = (f[1][k], f[1][(k + 1) % n2]); one::<R, A>(name, c, list[*i], &iv, [a, p], [e, p]); one::<R, A>(name, c, list[*i], &iv, [a, p], [e, q]) }
            }
        } }
    });
    let k = (f[0].len() * f[0].len() * if R::N == 1 { 1 } else { 2 * n2 }) as u64;
    count("special cases", jobs.len() as u64 * k, 1);
    // a benign input: results over all boundary patterns, expected ones at every interesting distance, every tolerance
    let m = many(lay[0], th);
    let Some((w, _)) = lay[0] else { return };
    let all = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    let ulps = [id_ulp(id), 0, 1, 5, 1000, 1 << 31, u32::MAX];
    let iv = list[0].vals();
    let reps = few(lay[0], true);
    let n = std::sync::atomic::AtomicU64::new(0);
    par(name, m.len() as u64, |j| {
        let a = m[j as usize];
        let mut far = reps.clone();
        far.push(a ^ (1 << (w - 1))); far.push(!a & all);
        for sh in [32, 33, 48, 63, 64, 65, 96] { if sh < w { far.push(a.wrapping_add(1 << sh) & all); far.push(a.wrapping_sub(1 << sh) & all); far.push(a.wrapping_add((1 << sh) + 1) & all) } }
        far.sort(); far.dedup();
        let mut k = 0;
        for (b, gk) in [(CheckBasis::Musl, GK::Random), (CheckBasis::None, GK::List), (CheckBasis::Mpfr, GK::List), (CheckBasis::None, GK::Extensive)] {
            let mut c = CheckCtx::new(id, b, gk);
            for (i, u) in ulps.into_iter().enumerate() {
                c.ulp = u;
                let t = u as u128;
                let near = [t.wrapping_sub(1), t, t + 1].into_iter().flat_map(|x| [a.wrapping_add(x) & all, a.wrapping_sub(x) & all]);
                for e in near.chain(if th || i == 0 || i == 6 { far.clone() } else { vec![] }) { one::<R, A>(name, &c, list[0], &iv, [a, 5], [e, 5]); k += 1 }
            }
        }
        n.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
    });
    count("tolerance", n.into_inner(), 1);
}
fn id_ulp(id: I) -> u32 { CheckCtx::new(id, CheckBasis::Mpfr, GK::Random).ulp }
/// the documented worst case of each function (units in the last place, against the exact result)
fn worst(id: I, musl: bool) -> u32 {
    use B::*;
    let b = id.base_name();
    let u = match b {
        Acosh | Erfc => 4, Asinh | Atan2 | Atanh | Sinh | Tanh => 2, Exp10 => 6, Lgamma | LgammaR => 16,
        J0 | J1 | Y0 | Y1 | Jn | Yn => 8_000_000,
        Tgamma => if id == I::Tgamma { 20 } else { 1 },
        Acos | Asin | Atan | Cos | Cosh | Erf | Exp | Exp2 | Expm1 | Hypot | Log | Log10 | Log1p | Log2 | Pow | Sin | Sincos | Tan => 1,
        _ => 0,
    };
    if !musl { return u }
    match b { Cosh => return 2, Lgamma | LgammaR => return 400, Tanh => return 4, _ => () }
    match id { I::Cbrt | I::Fdim => 2, I::Sincosf => 500, I::Tgamma => 20, _ => u }
}
macro_rules! each {
    (fn_name: $n:ident, RustArgs: $A:ty, RustRet: $R:ty, attrs: [$($a:meta),*],) => {
        {
            type Op = libm_test::op::$n::Routine;
            let id = <Op as MathOp>::IDENTIFIER;
            for b in BASES { for gk in GENS {
                let c = CheckCtx::new(id, b.clone(), gk);
                let w = worst(id, b == CheckBasis::Musl);
                if c.ulp > w { violation("default_ulp", &format!("{} {b:?} {gk:?}", stringify!($n)), &c.ulp.to_string(), &format!("at most {w}")) }
            } }
            count("default_ulp", 15, 1);
            if !stopped() { routine::<$R, $A>(stringify!($n), id) }
        }
    };
}
pub fn c31() {
    libm_macros::for_each_function! { callback: each, emit_types: [RustArgs, RustRet], }
    // integer results of every type
    fn ints<R: Res + CheckOutput<(f32,)>>(n: &str) {
        for gk in GENS { for b in BASES {
            let c = CheckCtx::new(I::Sinf, b, gk);
            let v = [0u128, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX as u128];
            for x in v { for y in v { one::<R, (f32,)>(n, &c, (0.5,), &[In::F(0.5, 0)], [x, 0], [y, 0]) } }
        } }
        count(n, 1500, 1);
    }
    ints::<i32>("i32"); ints::<u32>("u32"); ints::<i64>("i64"); ints::<u64>("u64");
    // every pair of f16 results a small distance apart
    if true {
        let c0 = CheckCtx::new(I::Fabsf16, CheckBasis::Mpfr, GK::Random);
        let iv = [In::F(0.5, 0)];
        let d: u32 = if g().thorough { 1024 } else { 24 };
        par("f16 neighbours", 65536, |a| {
            for u in [0u32, 1, 7, 11] {
                let mut c = c0.clone();
                c.ulp = u;
                for k in 0..d {
                    let e = (a as u32).wrapping_add(k).wrapping_sub(d / 2) as u16;
                    one::<f16, (f16,)>("f16", &c, (0.5,), &iv, [a as u128, 0], [e as u128, 0]);
                }
            }
        });
        count("f16 neighbours", 65536 * d as u64 * 4, 1);
    }
    note("every routine x basis x generator kind x inputs at the edges of the special cases x all pairs of representative results; every routine x boundary results x distances around every tolerance");
}
