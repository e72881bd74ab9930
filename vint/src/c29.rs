//! C29: the integer and float support layer is exact.
use crate::infra::*;
use libm::support::*;
use std::cmp::Ordering;

fn bad<R: PartialEq + std::fmt::Debug>(op: &str, input: impl Fn() -> String, f: impl FnOnce() -> R, want: R) {
    match guard(f) {
        Ok(r) if r == want => (),
        r => violation(op, &input(), &r.map_or_else(|e| e, |r| format!("{r:x?}")), &format!("{want:x?}")),
    }
}
/// 128-bit patterns: runs of ones at every place (and their complements), 32-bit limbs over a small alphabet
fn pat128(limbs: &[u32], runs: bool) -> Vec<u128> {
    let mut v = vec![];
    let n = limbs.len();
    for i in 0..n.pow(4) {
        let mut k = i;
        let mut x = 0u128;
        for j in 0..4 { x |= (limbs[k % n] as u128) << (32 * j); k /= n }
        v.push(x);
    }
    if runs {
        for hi in 0..128 { for lo in 0..=hi { let m = (u128::MAX >> (127 - hi)) & (u128::MAX << lo); v.push(m); v.push(!m) } }
    }
    v.sort(); v.dedup();
    v
}
/// boundary patterns of an n-bit integer, n <= 128
fn pat(bits: u32, th: bool) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    if bits <= 8 { return (0..=mask).collect() }
    let mut v = vec![0, 0x5555_5555_5555_5555_5555_5555_5555_5555 & mask, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa & mask, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210 & mask];
    for i in 0..bits {
        let b = 1u128 << i;
        for x in [b, b.wrapping_sub(1), b + 1, b | b >> 1, !b, b.wrapping_neg(), b.wrapping_mul(3), b ^ (mask >> 1)] { v.push(x & mask) }
    }
    if th || bits == 16 { for i in 0..bits { for j in 0..i { v.push((1 << i) + (1u128 << j)); v.push(((1 << i) - (1u128 << j)) & mask); } } }
    v.sort(); v.dedup();
    v
}
// exact model: value of a type as i128 for widths up to 64
fn wrap(x: i128, bits: u32, signed: bool) -> i128 {
    let m = x & ((1i128 << bits) - 1);
    if signed && m >> (bits - 1) == 1 { m - (1i128 << bits) } else { m }
}
macro_rules! int_ops {
    ($t:ty, $u:ty, $i:ty, $signed:expr) => {{
        let (bits, sg) = (<$t>::BITS, $signed);
        let op = concat!("Int for ", stringify!($t));
        type U = $u;
        let c = |name: &str, ok: bool| if !ok { violation(op, name, "wrong constant", "the constant of the type") };
        c("BITS", <$t as MinInt>::BITS == bits);
        c("SIGNED", <$t as MinInt>::SIGNED == sg);
        c("ZERO", <$t as MinInt>::ZERO == 0);
        c("ONE", <$t as MinInt>::ONE == 1);
        c("MIN", <$t as MinInt>::MIN as i128 == if sg { -(1i128 << (bits - 1)) } else { 0 });
        c("MAX", <$t as MinInt>::MAX as i128 == if sg { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 });
        let v: Vec<$t> = pat(bits, g().thorough).into_iter().map(|x| x as $t).collect();
        let lo = if sg { -(1i128 << (bits - 1)) } else { 0 };
        let hi = if sg { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
        par(op, v.len() as u64, |k| {
            let x = v[k as usize];
            let (xi, xu) = (x as i128, wrap(x as i128, bits, false));
            let s1 = || format!("{x}");
            bad(&format!("{op}: signed"), s1, || Int::signed(x) as i128, wrap(xi, bits, true));
            bad(&format!("{op}: unsigned"), s1, || Int::unsigned(x) as i128, xu);
            bad(&format!("{op}: from_unsigned"), s1, || <$t as Int>::from_unsigned(xu as U) as i128, xi);
            bad(&format!("{op}: is_zero"), s1, || Int::is_zero(x), xi == 0);
            if sg && xi != lo { bad(&format!("{op}: abs"), s1, || Int::abs(x) as i128, xi.abs()); }
            bad(&format!("{op}: wrapping_neg"), s1, || Int::wrapping_neg(x) as i128, wrap(-xi, bits, sg));
            let lz = if xu == 0 { bits } else { bits - (128 - xu.leading_zeros()) };
            bad(&format!("{op}: leading_zeros"), s1, || Int::leading_zeros(x), lz);
            if xi > 0 { bad(&format!("{op}: ilog2"), s1, || Int::ilog2(x), bits - 1 - lz); }
            for n in 0..bits {
                let s2 = || format!("{x}, {n}");
                bad(&format!("{op}: logical_shr"), s2, || Int::logical_shr(x, n) as i128, wrap(xu >> n, bits, sg));
                bad(&format!("{op}: rotate_left"), s2, || Int::rotate_left(x, n) as i128, wrap(xu << n | xu >> (bits - n).min(127), bits, sg));
            }
            for n in (0..2 * bits + 2).chain([u32::MAX, 1 << 31]) {
                let s2 = || format!("{x}, {n}");
                bad(&format!("{op}: wrapping_shl"), s2, || Int::wrapping_shl(x, n) as i128, wrap(xu << (n % bits), bits, sg));
                bad(&format!("{op}: wrapping_shr"), s2, || Int::wrapping_shr(x, n) as i128, xi >> (n % bits));
            }
            for &y in &v {
                let yi = y as i128;
                let s2 = || format!("{x}, {y}");
                let fit = |r: i128| (lo..=hi).contains(&r);
                let (s, d) = (xi + yi, xi - yi);
                bad(&format!("{op}: checked_add"), s2, || Int::checked_add(x, y).map(|r| r as i128), fit(s).then_some(s));
                bad(&format!("{op}: checked_sub"), s2, || Int::checked_sub(x, y).map(|r| r as i128), fit(d).then_some(d));
                bad(&format!("{op}: wrapping_add"), s2, || Int::wrapping_add(x, y) as i128, wrap(s, bits, sg));
                bad(&format!("{op}: wrapping_sub"), s2, || Int::wrapping_sub(x, y) as i128, wrap(d, bits, sg));
                bad(&format!("{op}: wrapping_mul"), s2, || Int::wrapping_mul(x, y) as i128, wrap(xi.wrapping_mul(yi), bits, sg));
                bad(&format!("{op}: overflowing_add"), s2, || { let (r, o) = Int::overflowing_add(x, y); (r as i128, o) }, (wrap(s, bits, sg), !fit(s)));
                bad(&format!("{op}: overflowing_sub"), s2, || { let (r, o) = Int::overflowing_sub(x, y); (r as i128, o) }, (wrap(d, bits, sg), !fit(d)));
                bad(&format!("{op}: abs_diff"), s2, || Int::abs_diff(x, y) as i128, d.abs());
            }
            count(op, 1, 8 + 2 * bits as u64 + 2 * (2 * bits as u64 + 4));
            count(op, v.len() as u64, 8);
        });
        bad(&format!("{op}: from_bool"), || "true".into(), || <$t as Int>::from_bool(true) as i128, 1);
        bad(&format!("{op}: from_bool"), || "false".into(), || <$t as Int>::from_bool(false) as i128, 0);
        note(format!("{op}: every method over all pairs of {} values, every shift amount", v.len()));
    }};
}
// 128-bit types: the model is a pair of 64-bit limbs
fn add128(a: u128, b: u128) -> (u128, bool) {
    let l = (a as u64 as u128) + (b as u64 as u128);
    let h = (a >> 64) + (b >> 64) + (l >> 64);
    (h << 64 | l as u64 as u128, h >> 64 != 0)
}
fn neg128(a: u128) -> u128 { add128(!a, 1).0 }
fn key(a: u128, sg: bool) -> u128 { if sg { a ^ 1 << 127 } else { a } }
macro_rules! int128_ops {
    ($t:ty, $sg:expr) => {{
        let op = concat!("Int for ", stringify!($t));
        let sg: bool = $sg;
        let v = pat(128, false);
        let top = |x: u128| x >> 127 == 1;
        par(op, v.len() as u64, |k| {
            let xu = v[k as usize];
            let x = xu as $t;
            let s1 = || format!("{x}");
            bad(&format!("{op}: signed"), s1, || Int::signed(x) as u128, xu);
            bad(&format!("{op}: unsigned"), s1, || Int::unsigned(x) as u128, xu);
            bad(&format!("{op}: from_unsigned"), s1, || <$t as Int>::from_unsigned(xu) as u128, xu);
            bad(&format!("{op}: is_zero"), s1, || Int::is_zero(x), xu == 0);
            if sg && xu != 1 << 127 { bad(&format!("{op}: abs"), s1, || Int::abs(x) as u128, if top(xu) { neg128(xu) } else { xu }); }
            bad(&format!("{op}: wrapping_neg"), s1, || Int::wrapping_neg(x) as u128, neg128(xu));
            let lz = (0..128).find(|i| xu >> (127 - i) & 1 == 1).unwrap_or(128);
            bad(&format!("{op}: leading_zeros"), s1, || Int::leading_zeros(x), lz);
            if xu != 0 && !(sg && top(xu)) { bad(&format!("{op}: ilog2"), s1, || Int::ilog2(x), 127 - lz); }
            for n in 0..128 {
                let s2 = || format!("{x}, {n}");
                bad(&format!("{op}: logical_shr"), s2, || Int::logical_shr(x, n) as u128, xu >> n);
                bad(&format!("{op}: rotate_left"), s2, || Int::rotate_left(x, n) as u128, if n == 0 { xu } else { xu << n | xu >> (128 - n) });
                bad(&format!("{op}: wrapping_shl"), s2, || Int::wrapping_shl(x, n + 128) as u128, xu << n);
                bad(&format!("{op}: wrapping_shr"), s2, || Int::wrapping_shr(x, n) as u128, xu >> n | if sg && top(xu) && n > 0 { u128::MAX << (128 - n) } else { 0 });
            }
            for &yu in &v {
                let y = yu as $t;
                let s2 = || format!("{x}, {y}");
                let (s, c) = add128(xu, yu);
                let (d, nb) = { let (a, c1) = add128(xu, !yu); let (b, c2) = add128(a, 1); (b, c1 || c2) };
                let so = if sg { top(xu) == top(yu) && top(s) != top(xu) } else { c };
                let d_o = if sg { top(xu) != top(yu) && top(d) != top(xu) } else { !nb };
                bad(&format!("{op}: checked_add"), s2, || Int::checked_add(x, y).map(|r| r as u128), (!so).then_some(s));
                bad(&format!("{op}: checked_sub"), s2, || Int::checked_sub(x, y).map(|r| r as u128), (!d_o).then_some(d));
                bad(&format!("{op}: wrapping_add"), s2, || Int::wrapping_add(x, y) as u128, s);
                bad(&format!("{op}: wrapping_sub"), s2, || Int::wrapping_sub(x, y) as u128, d);
                bad(&format!("{op}: wrapping_mul"), s2, || Int::wrapping_mul(x, y) as u128, { let p = mul(xu, yu); p[0] as u128 | (p[1] as u128) << 64 });
                bad(&format!("{op}: overflowing_add"), s2, || { let (r, o) = Int::overflowing_add(x, y); (r as u128, o) }, (s, so));
                bad(&format!("{op}: overflowing_sub"), s2, || { let (r, o) = Int::overflowing_sub(x, y); (r as u128, o) }, (d, d_o));
                bad(&format!("{op}: abs_diff"), s2, || Int::abs_diff(x, y) as u128, if key(xu, sg) >= key(yu, sg) { d } else { neg128(d) });
            }
            count(op, 1 + v.len() as u64, 8);
        });
        note(format!("{op}: every method over all pairs of {} values, every shift amount", v.len()));
    }};
}
/// schoolbook product of 64-bit limbs, as little-endian limbs
fn mul(a: u128, b: u128) -> [u64; 4] {
    let (x, y) = ([a as u64, (a >> 64) as u64], [b as u64, (b >> 64) as u64]);
    let mut r = [0u64; 4];
    for i in 0..2 {
        let mut c = 0u128;
        for j in 0..2 { let t = r[i + j] as u128 + x[i] as u128 * y[j] as u128 + c; r[i + j] = t as u64; c = t >> 64; }
        r[i + 2] = c as u64;
    }
    r
}
fn limbs(x: u256) -> [u64; 4] { [x.lo as u64, (x.lo >> 64) as u64, x.hi as u64, (x.hi >> 64) as u64] }
fn of(l: [u64; 4]) -> u256 { u256 { lo: l[0] as u128 | (l[1] as u128) << 64, hi: l[2] as u128 | (l[3] as u128) << 64 } }
fn hx(x: u256) -> String { format!("{:#x}:{:032x}", x.hi, x.lo) }
fn wide() {
    let th = g().thorough;
    // ---- widening multiplication
    let v = pat128(if th { &[0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0xaaaa_aaab] } else { &[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff] }, true);
    let n = v.len() as u64;
    let op = "u128 widen_mul";
    par(op, n, |k| {
        let x = v[k as usize];
        for &y in &v {
            let w = mul(x, y);
            let (p, q) = (guard(|| limbs(x.widen_mul(y))), guard(|| limbs(x.zero_widen_mul(y))));
            if p.as_ref() != Ok(&w) || q.as_ref() != Ok(&w) { violation(op, &format!("{x:#x}, {y:#x}"), &format!("{p:x?} / {q:x?}"), &format!("{w:x?}")) }
        }
        bad("u128 widen", || format!("{x:#x}"), || { let w = x.widen(); (limbs(w), limbs(x.zero_widen()), w.lo(), w.hi(), w.lo_hi()) }, { let l = [x as u64, (x >> 64) as u64, 0, 0]; (l, l, x, 0, (x, 0)) });
        let s = x as i128;
        let e = if s < 0 { u64::MAX } else { 0 };
        bad("i128 widen", || format!("{s:#x}"), || limbs(s.widen().unsigned()), [x as u64, (x >> 64) as u64, e, e]);
        bad("i128 zero_widen", || format!("{s:#x}"), || limbs(s.zero_widen().unsigned()), [x as u64, (x >> 64) as u64, 0, 0]);
        bad("i256 halves", || format!("{s:#x}"), || { let w = s.widen(); (w.lo(), w.hi(), w.lo_hi()) }, (s, s >> 127, (s, s >> 127)));
        count(op, n, 2);
        count("widen", 1, 8);
    });
    let w: Vec<u128> = pat(128, false);
    par("i128 zero_widen_mul", w.len() as u64, |k| for &y in &w {
        let x = w[k as usize];
        bad("i128 zero_widen_mul", || format!("{x:#x}, {y:#x}"), || limbs((x as i128).zero_widen_mul(y as i128).unsigned()), mul(x, y));
    });
    count("i128 zero_widen_mul", (w.len() * w.len()) as u64, 1);
    note(format!("u128 widen_mul: all pairs of {n} values (32-bit limbs over an alphabet, every run of ones and of zeros)"));
    // ---- u256: add, shifts, bit operations, order
    let a64: &[u64] = &[0, 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let mut u: Vec<[u64; 4]> = vec![];
    for i in 0..a64.len().pow(4) { let mut k = i; u.push(std::array::from_fn(|_| { let x = a64[k % 5]; k /= 5; x })); }
    for b in 0..256 { let mut l = [0u64; 4]; l[b / 64] = 1 << (b % 64); u.push(l); u.push(l.map(|x| !x)); u.push(std::array::from_fn(|i| if i < b / 64 { u64::MAX } else if i == b / 64 { (1 << (b % 64)) - 1 } else { 0 })); }
    u.push([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0xdead_beef_cafe_f00d, 0x8421_1248_9009_6ff6]);
    u.sort(); u.dedup();
    let n = u.len() as u64;
    par("u256", n, |k| {
        let a = u[k as usize];
        let x = of(a);
        let s1 = || hx(x);
        bad("u256 not", s1, || limbs(!x), a.map(|l| !l));
        bad("i256 not", s1, || limbs((!x.signed()).unsigned()), a.map(|l| !l));
        bad("u256 signed/unsigned", s1, || limbs(x.signed().unsigned()), a);
        bad("u256 lo/hi", s1, || (x.lo(), x.hi()), (a[0] as u128 | (a[1] as u128) << 64, a[2] as u128 | (a[3] as u128) << 64));
        for s in 0..256u32 {
            let (q, r) = ((s / 64) as usize, s % 64);
            let want: [u64; 4] = std::array::from_fn(|i| {
                let at = |j: usize| if j < 4 { a[j] } else { 0 };
                if r == 0 { at(i + q) } else { at(i + q) >> r | at(i + q + 1) << (64 - r) }
            });
            bad("u256 shr", || format!("{}, {s}", hx(x)), || limbs(x >> s), want);
        }
        count("u256 unary", 1, 260);
        for &b in &u {
            let y = of(b);
            let s2 = || format!("{}, {}", hx(x), hx(y));
            let mut c = 0u128;
            let sum: [u64; 4] = std::array::from_fn(|i| { let t = a[i] as u128 + b[i] as u128 + c; c = t >> 64; t as u64 });
            bad("u256 add", s2, || limbs(x + y), sum);
            bad("u256 or", s2, || limbs(x | y), std::array::from_fn(|i| a[i] | b[i]));
            bad("i256 or", s2, || limbs((x.signed() | y.signed()).unsigned()), std::array::from_fn(|i| a[i] | b[i]));
            let uo = a.iter().rev().cmp(b.iter().rev());
            let so = if (a[3] ^ b[3]) >> 63 == 1 { uo.reverse() } else { uo };
            bad("u256 order", s2, || (x.partial_cmp(&y), x == y, x < y, x <= y, x > y, x >= y), (Some(uo), uo == Ordering::Equal, uo.is_lt(), uo.is_le(), uo.is_gt(), uo.is_ge()));
            let (p, q) = (x.signed(), y.signed());
            bad("i256 order", s2, || (p.partial_cmp(&q), p == q, p < q, p <= q, p > q, p >= q), (Some(so), so == Ordering::Equal, so.is_lt(), so.is_le(), so.is_gt(), so.is_ge()));
        }
        count("u256 binary", n, 5);
    });
    note(format!("u256/i256: every pair of {n} values through +, |, order; every value through !, halves and all 256 shifts"));
    let m = u64::MAX;
    bad("u256 constants", || "MIN MAX ZERO ONE".into(), || (limbs(<u256 as MinInt>::MIN), limbs(<u256 as MinInt>::MAX), limbs(u256::MAX), limbs(u256::ZERO), limbs(u256::ONE), <u256 as MinInt>::BITS, <u256 as MinInt>::SIGNED), ([0; 4], [m; 4], [m; 4], [0; 4], [1, 0, 0, 0], 256, false));
    bad("i256 constants", || "MIN MAX ZERO ONE".into(), || (limbs(i256::MIN.unsigned()), limbs(i256::MAX.unsigned()), limbs(i256::ZERO.unsigned()), limbs(i256::ONE.unsigned()), <i256 as MinInt>::BITS, <i256 as MinInt>::SIGNED), ([0, 0, 0, 1 << 63], [m, m, m, m >> 1], [0; 4], [1, 0, 0, 0], 256, true));
    count("constants", 2, 13);
}
macro_rules! halves {
    ($h:ty, $d:ty, $uh:ty) => {{
        let op = concat!("HInt for ", stringify!($h));
        let bits = <$h>::BITS;
        let all = bits <= 16 && g().thorough;
        let v: Vec<$h> = if all { (0..1u32 << bits).map(|x| x as $h).collect() } else { pat(bits, g().thorough).into_iter().map(|x| x as $h).collect() };
        par(op, v.len() as u64, |k| {
            let x = v[k as usize];
            let (xi, xu) = (x as i128, x as $uh as i128);
            let s1 = || format!("{x}");
            bad(&format!("{op}: widen"), s1, || HInt::widen(x) as i128, xi);
            bad(&format!("{op}: zero_widen"), s1, || HInt::zero_widen(x) as i128, (xu as $d) as i128);
            bad(&format!("{op}: widen_hi"), s1, || HInt::widen_hi(x) as i128, ((xu << bits) as $d) as i128);
            for &y in &v {
                let (yi, yu) = (y as i128, y as $uh as i128);
                // the accessors of the double-width type, built from its two halves
                let d = ((xu << bits) | yu) as $d;
                let m = HInt::widen_mul(x, y) as i128 == (xi.wrapping_mul(yi) as $d) as i128;
                let z = HInt::zero_widen_mul(x, y) as i128 == (xu.wrapping_mul(yu) as $d) as i128;
                let l = DInt::lo(d) == y && DInt::hi(d) == x && DInt::lo_hi(d) == (y, x) && <$d as DInt>::from_lo_hi(y as _, x as _) == d;
                if !(m && z && l) { violation(op, &format!("{x}, {y}"), &format!("widen_mul {}, zero_widen_mul {}, halves {:?}, from halves {}", HInt::widen_mul(x, y), HInt::zero_widen_mul(x, y), DInt::lo_hi(d), <$d as DInt>::from_lo_hi(y, x)), &format!("{}, {}, ({y}, {x}), {d}", xi.wrapping_mul(yi) as $d, xu.wrapping_mul(yu) as $d)) }
            }
            count(op, 1, 3);
            count(op, v.len() as u64, 6);
        });
        note(format!("{op}: all pairs of {} values", v.len()));
    }};
}
macro_rules! casts {
    ($($f:ty),*; $t:tt) => {$( casts!(@ $f; $t); )*};
    (@ $f:ty; ($($t:ty),*)) => {$({
        let op = concat!("cast ", stringify!($f), " to ", stringify!($t));
        let (fb, tb) = (<$f>::BITS, <$t>::BITS);
        let v = if fb == 16 { (0..65536).collect() } else { pat(fb, false) };
        for &p in &v {
            let x = p as $f;
            // two's complement bits extended to 128, cut to the target width
            let full = if <$f>::MIN != 0 && fb < 128 && p >> (fb - 1) == 1 { p | u128::MAX << fb } else { p };
            let cut = if tb == 128 { full } else { full & ((1 << tb) - 1) };
            let want = if <$t>::MIN != 0 && tb < 128 && cut >> (tb - 1) == 1 { cut | u128::MAX << tb } else { cut };
            let neg = |w: u128, signed: bool| signed && w >> 127 == 1;
            let fits = want == full && neg(full, <$f>::MIN != 0) == neg(want, <$t>::MIN != 0);
            bad(op, || format!("{x} lossy"), || (CastInto::<$t>::cast_lossy(x) as i128 as u128, <$t as CastFrom<$f>>::cast_from_lossy(x) as i128 as u128), (want, want));
            if fits { bad(op, || format!("{x}"), || (CastInto::<$t>::cast(x) as i128 as u128, <$t as CastFrom<$f>>::cast_from(x) as i128 as u128), (want, want)); }
        }
        count(op, v.len() as u64, 4);
    })*};
}
/// nearest float, ties to even, of an integer: the bits of the format
fn int_to_float(neg: bool, m: u128, bits: u32, sb: u32) -> u128 {
    let s = (neg as u128) << (bits - 1);
    if m == 0 { return s }
    let bias = (1u32 << (bits - sb - 2)) - 1;
    let len = 128 - m.leading_zeros();
    let (k, e) = if len <= sb + 1 { (m << (sb + 1 - len), len - 1) } else {
        let d = len - sb - 1;
        let (k, r, h) = (m >> d, m & ((1 << d) - 1), 1u128 << (d - 1));
        (k + (r > h || r == h && k & 1 == 1) as u128, len - 1)
    };
    let b = ((e + bias - 1) as u128) << sb;
    let inf = ((2 * bias + 1) as u128) << sb;
    s | (b + k).min(inf)
}
macro_rules! float_casts {
    ($f:ty; $($t:ident $sb:expr),*) => {$({
        let op = concat!("cast ", stringify!($f), " to ", stringify!($t));
        let v = if <$f>::BITS == 16 { (0..65536).collect() } else { pat(<$f>::BITS, g().thorough) };
        let bits = <$t as Float>::BITS;
        for &p in &v {
            let x = p as $f;
            let want = int_to_float(x < 0, x.unsigned_abs() as u128, bits, $sb);
            bad(op, || format!("{x} lossy"), || CastInto::<$t>::cast_lossy(x).to_bits() as u128, want);
            let m = x.unsigned_abs() as u128;
            let inf = ((1u128 << (bits - $sb - 1)) - 1) << $sb;
            if m == 0 || (128 - m.leading_zeros() - m.trailing_zeros() <= $sb + 1 && want & (1u128 << (bits - 1)) - 1 != inf) {
                // (the exact cast is specified for values that come back unchanged)
                bad(op, || format!("{x}"), || CastInto::<$t>::cast(x).to_bits() as u128, want);
            }
        }
        count(op, v.len() as u64, 2);
    })*};
}
macro_rules! float_traits {
    ($t:ident, $int:ident, $sb:expr) => {{
        let op = concat!("Float for ", stringify!($t));
        let bits = <$int>::BITS;
        let eb = bits - $sb - 1;
        let one: $int = 1;
        let bias = (1u32 << (eb - 1)) - 1;
        let (smask, emask, sign) = ((one << $sb) - 1, ((one << eb) - 1) << $sb, one << (bits - 1));
        let k = |name: &str, b: $t, w: $int| bad(op, || name.to_string(), || b.to_bits(), w);
        k("ZERO", <$t as Float>::ZERO, 0); k("NEG_ZERO", <$t as Float>::NEG_ZERO, sign);
        k("ONE", <$t as Float>::ONE, (bias as $int) << $sb); k("NEG_ONE", <$t as Float>::NEG_ONE, sign | (bias as $int) << $sb);
        k("INFINITY", <$t as Float>::INFINITY, emask); k("NEG_INFINITY", <$t as Float>::NEG_INFINITY, emask | sign);
        k("MAX", <$t as Float>::MAX, emask - 1); k("MIN", <$t as Float>::MIN, emask - 1 | sign);
        k("EPSILON", <$t as Float>::EPSILON, ((bias - $sb) as $int) << $sb);
        k("MIN_POSITIVE_NORMAL", <$t as Float>::MIN_POSITIVE_NORMAL, one << $sb);
        // pi/2 = 1.921fb54442d18469898cc51701b839a252... in hexadecimal
        let frac: u128 = 0x921f_b544_42d1_8469_898c_c517_01b8_39a2;
        let pi = (bias as $int) << $sb | (frac >> (128 - $sb)) as $int;
        let pi = pi + (frac >> (127 - $sb) & 1) as $int;
        k("FRAC_PI_2", <$t as Float>::FRAC_PI_2, pi); k("PI", <$t as Float>::PI, pi + (one << $sb)); k("NEG_PI", <$t as Float>::NEG_PI, pi + (one << $sb) | sign);
        let nan = |b: $int| b & emask == emask && b & smask != 0;
        let n = |name: &str, ok: bool| if !ok { violation(op, name, "wrong constant", "the constant of the format") };
        n("NAN", nan(<$t as Float>::NAN.to_bits()) && <$t as Float>::NAN.is_nan());
        n("NEG_NAN", nan(<$t as Float>::NEG_NAN.to_bits()) && <$t as Float>::NEG_NAN.to_bits() & sign != 0);
        n("masks", <$t as Float>::SIGN_MASK == sign && <$t as Float>::SIG_MASK == smask && <$t as Float>::EXP_MASK == emask && <$t as Float>::IMPLICIT_BIT == one << $sb);
        n("widths", <$t as Float>::BITS == bits && <$t as Float>::SIG_BITS == $sb && <$t as Float>::EXP_BITS == eb);
        n("exponents", <$t as Float>::EXP_SAT == (1 << eb) - 1 && <$t as Float>::EXP_BIAS == bias && <$t as Float>::EXP_MAX == bias as i32 && <$t as Float>::EXP_MIN == 1 - bias as i32 && <$t as Float>::EXP_MIN_SUBNORM == 1 - bias as i32 - $sb as i32);
        let v: Vec<$int> = if bits == 16 || bits == 32 && g().thorough { vec![] } else { pat(bits, true).into_iter().map(|x| x as $int).collect() };
        let total = if v.is_empty() { 1u64 << bits.min(32) } else { v.len() as u64 };
        let one_value = |b: $int| {
            let x = <$t as Float>::from_bits(b);
            let neg = b & sign != 0;
            let ex = ((b & emask) >> $sb) as u32;
            // moving a signalling f16 NaN through the host's promoted arithmetic may set its quiet bit
            let q: $int = if bits == 16 && nan(b) { one << ($sb - 1) } else { 0 };
            let ok = Float::to_bits(x) == b
                && Float::to_bits_signed(x) as $int == b
                && Float::is_nan(x) == nan(b)
                && Float::is_infinite(x) == (b & !sign == emask)
                && Float::is_sign_negative(x) == neg
                && Float::is_sign_positive(x) == !neg
                && (b & !sign == 0 || Float::is_subnormal(x) == (ex == 0))
                && Float::ex(x) == ex
                && Float::exp_unbiased(x) == ex as i32 - bias as i32
                && Float::frac(x) == b & smask
                && <$t as Float>::from_parts(neg, ex, b & smask).to_bits() == b
                && <$t as Float>::from_parts(neg, ex, b).to_bits() == b
                && <$t as Float>::from_parts(!neg, ex, b & smask).to_bits() == b ^ sign
                && Float::abs(x).to_bits() | q == b & !sign | q
                && (nan(b) || Float::signum(x).to_bits() == (bias as $int) << $sb | b & sign)
                && (!nan(b) || Float::is_nan(Float::signum(x)))
                && Float::biteq(x, x) && Float::eq_repr(x, x) && !Float::biteq(x, <$t as Float>::from_bits(b ^ sign))
                && Float::eq_repr(x, <$t as Float>::NAN) == nan(b)
                && Float::copysign(x, <$t as Float>::NEG_ZERO).to_bits() | q == b | sign | q
                && Float::copysign(<$t as Float>::ONE, x).to_bits() == (bias as $int) << $sb | b & sign;
            let f = b & smask;
            let norm = ex != 0 || f == 0 || {
                let (e, m) = <$t as Float>::normalize(f);
                // m * 2^(e) in the scale of biased exponents equals f in the scale of subnormals
                m >> $sb == 1 && e <= 0 && m == f << (1 - e) as u32
            };
            if !(ok && norm) { violation(op, &format!("{b:#x}"), "an accessor that contradicts the bit layout", "every accessor agrees with the IEEE layout") }
        };
        const K: u64 = 1 << 16;
        par(op, total.div_ceil(K), |c| for i in c * K..((c + 1) * K).min(total) { one_value(if v.is_empty() { i as $int } else { v[i as usize] }) });
        count(op, total, 22);
        note(format!("{op}: {} values through every accessor", total));
    }};
}
macro_rules! conv {
    ($h:ident $hs:expr, $d:ident $ds:expr, $hi:ident, $di:ident) => {{
        let op = concat!("widen/narrow ", stringify!($h), " ", stringify!($d));
        let hb = <$hi>::BITS;
        let db = <$di>::BITS;
        let (hbias, dbias) = ((1i64 << (hb - $hs - 2)) - 1, (1i64 << (db - $ds - 2)) - 1);
        let v: Vec<$hi> = if hb == 16 { (0..=0xffffu16).map(|x| x as $hi).collect() } else { pat(hb, true).into_iter().map(|x| x as $hi).collect() };
        for &b in &v {
            let x = <$h>::from_bits(b);
            if x.is_nan() { if !HFloat::widen(x).is_nan() { violation(op, &format!("widen {b:#x}"), "a number", "NaN") } continue }
            let ex = (b >> $hs & ((1 << (hb - $hs - 1)) - 1)) as i64;
            let f = (b & ((1 << $hs) - 1)) as u128;
            let sign = ((b >> (hb - 1)) as $di) << (db - 1);
            let want: $di = sign | if ex == (1 << (hb - $hs - 1)) - 1 { ((1 << (db - $ds - 1)) - 1) << $ds } else {
                let (m, e) = if ex == 0 { (f, 1) } else { (f | 1 << $hs, ex) };
                if m == 0 { 0 } else {
                    let l = 127 - m.leading_zeros() as i64;
                    let be = e - hbias - $hs as i64 + l + dbias;
                    ((be as $di) << $ds) | ((m << ($ds as i64 - l)) as $di & ((1 << $ds) - 1))
                }
            };
            bad(op, || format!("widen {b:#x}"), || HFloat::widen(x).to_bits(), want);
            // around every widened value and the midpoint above it, narrowing rounds to nearest even
            if ex == (1 << (hb - $hs - 1)) - 1 || b >> (hb - 1) == 1 { continue }
            let up = <$h>::from_bits(b + 1);
            let next: $di = if up.to_bits() == <$h as Float>::INFINITY.to_bits() { let t = ((hbias + 1 + dbias) as $di) << $ds; t } else { HFloat::widen(up).to_bits() };
            let (a, z) = (<$d>::from_bits(want), <$d>::from_bits(next));
            let mid = ((a + z) / 2.0).to_bits();
            let even = if b & 1 == 0 { b } else { b + 1 };
            for (y, w) in [(want, b), (mid - 1, b), (mid, even), (mid + 1, b + 1), (want + 1, b), (next - 1, b + 1)] {
                bad(op, || format!("narrow {y:#x}"), || DFloat::narrow(<$d>::from_bits(y)).to_bits(), w);
                let s = (1 as $di) << (db - 1);
                bad(op, || format!("narrow -{y:#x}"), || DFloat::narrow(<$d>::from_bits(y | s)).to_bits(), w | 1 << (hb - 1));
            }
        }
        count(op, v.len() as u64, 13);
        note(format!("{op}: {} values, each widened and narrowed back with its midpoints", v.len()));
    }};
}
fn status() {
    // every history of at most six flag updates
    let op = "Status";
    let mut n = 0;
    fn walk(op: &str, s: Status, u: bool, i: bool, d: u32, h: String, n: &mut u64) {
        *n += 1;
        if s.underflow() != u || s.inexact() != i || s.overflow() { violation(op, &h, &format!("underflow {} inexact {} overflow {}", s.underflow(), s.inexact(), s.overflow()), &format!("underflow {u} inexact {i}")) }
        if d == 0 { return }
        for v in [false, true] {
            let mut t = s; t.set_underflow(v); walk(op, t, v, i, d - 1, format!("{h} u={v}"), n);
            let mut t = s; t.set_inexact(v); walk(op, t, u, v, d - 1, format!("{h} i={v}"), n);
        }
    }
    walk(op, Status::OK, false, false, 6, String::new(), &mut n);
    walk(op, Status::UNDERFLOW, true, false, 3, "UNDERFLOW".into(), &mut n);
    walk(op, Status::INEXACT, false, true, 3, "INEXACT".into(), &mut n);
    let f = [Status::OK, Status::INVALID, Status::DIVIDE_BY_ZERO, Status::OVERFLOW, Status::UNDERFLOW, Status::INEXACT];
    for (i, a) in f.iter().enumerate() {
        for (j, b) in f.iter().enumerate() { if (a == b) != (i == j) { violation(op, &format!("{a:?} == {b:?}"), "equal flags", "distinct flags") } }
        if a.overflow() != (i == 3) || a.underflow() != (i == 4) || a.inexact() != (i == 5) { violation(op, &format!("{a:?}"), "wrong reading", "each flag reads as itself alone") }
    }
    count(op, n + 36, 1);
}
pub fn c29() {
    wide();
    int_ops!(u8, u8, i8, false); int_ops!(i8, u8, i8, true);
    int_ops!(u16, u16, i16, false); int_ops!(i16, u16, i16, true);
    int_ops!(u32, u32, i32, false); int_ops!(i32, u32, i32, true);
    int_ops!(u64, u64, i64, false); int_ops!(i64, u64, i64, true);
    int_ops!(usize, usize, isize, false); int_ops!(isize, usize, isize, true);
    int128_ops!(u128, false); int128_ops!(i128, true);
    halves!(u8, u16, u8); halves!(i8, i16, u8); halves!(u16, u32, u16); halves!(i16, i32, u16);
    halves!(u32, u64, u32); halves!(i32, i64, u32);
    // products of 64-bit halves need the 128-bit model
    let v = pat(64, true);
    par("HInt for u64", v.len() as u64, |k| for &y in &v {
        let (x, y) = (v[k as usize] as u64, y as u64);
        let p = mul(x as u128, y as u128);
        let w = p[0] as u128 | (p[1] as u128) << 64;
        bad("HInt for u64: widen_mul", || format!("{x}, {y}"), || (x.widen_mul(y), x.zero_widen_mul(y)), (w, w));
        // a signed product is the unsigned one less the sign corrections
        let (a, b) = (x as i64, y as i64);
        let ws = w.wrapping_sub(if a < 0 { (y as u128) << 64 } else { 0 }).wrapping_sub(if b < 0 { (x as u128) << 64 } else { 0 });
        bad("HInt for i64: widen_mul", || format!("{a}, {b}"), || (a.widen_mul(b) as u128, a.zero_widen_mul(b) as u128), (ws, w));
        let d = (x as u128) << 64 | y as u128;
        bad("DInt for u128", || format!("{d:#x}"), || (d.lo(), d.hi(), d.lo_hi(), u128::from_lo_hi(y, x)), (y, x, (y, x), d));
        let e = d as i128;
        bad("DInt for i128", || format!("{e:#x}"), || (e.lo(), e.hi(), e.lo_hi(), i128::from_lo_hi(b, a)), (b, a, (b, a), e));
        bad("HInt for u64: widen", || format!("{x}"), || (x.widen(), x.zero_widen(), x.widen_hi()), (x as u128, x as u128, (x as u128) << 64));
        bad("HInt for i64: widen", || format!("{a}"), || (a.widen() as u128, a.zero_widen() as u128, a.widen_hi() as u128), (x as u128 | if a < 0 { (u64::MAX as u128) << 64 } else { 0 }, x as u128, (x as u128) << 64));
    });
    count("HInt for u64/i64", (v.len() * v.len()) as u64, 14);
    casts!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize; (usize, isize, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128));
    note("casts: all 144 pairs of integer types over every 8- and 16-bit value and the boundary patterns of the wider types");
    float_casts!(i8; f16 10, f32 23, f64 52, f128 112);
    float_casts!(i16; f16 10, f32 23, f64 52, f128 112);
    float_casts!(i32; f16 10, f32 23, f64 52, f128 112);
    float_casts!(i64; f16 10, f32 23, f64 52, f128 112);
    float_casts!(i128; f16 10, f32 23, f64 52, f128 112);
    float_traits!(f16, u16, 10); float_traits!(f32, u32, 23); float_traits!(f64, u64, 52); float_traits!(f128, u128, 112);
    conv!(f16 10, f32 23, u16, u32);
    conv!(f32 23, f64 52, u32, u64);
    conv!(f64 52, f128 112, u64, u128);
    status();
}
