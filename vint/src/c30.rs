//! C30: stepping, spacing and special-value helpers of the test infrastructure.
use crate::infra::*;
use libm_test::{f8, linear_ints, logspace, Float, FloatExt};
use std::cmp::Ordering;

#[derive(Clone, Copy)]
pub struct Lay { pub bits: u32, pub sig: u32 }
impl Lay {
    pub fn sign(self) -> u128 { 1 << (self.bits - 1) }
    pub fn inf(self) -> u128 { ((1u128 << (self.bits - 1)) - 1) >> self.sig << self.sig }
    pub fn nan(self, b: u128) -> bool { b & !self.sign() > self.inf() }
    /// position on the number line: steps from zero, up positive
    pub fn rank(self, b: u128) -> i128 { let m = (b & !self.sign()) as i128; if b & self.sign() != 0 { -m } else { m } }
    /// value `n` single steps up from `b`; both zeros are the same place, reached with the sign one came from
    pub fn up(self, b: u128, n: u128) -> u128 {
        if self.nan(b) || n == 0 { return b }
        let (m, inf, neg) = (b & !self.sign(), self.inf(), b & self.sign() != 0);
        match (neg, n <= m) {
            (true, true) if m > 0 => self.sign() | (m - n),
            (true, _) => (n - m).min(inf),
            (false, _) => m.saturating_add(n).min(inf),
        }
    }
    pub fn down(self, b: u128, n: u128) -> u128 {
        if self.nan(b) { return b }
        self.up(b ^ self.sign(), n) ^ self.sign()
    }
}
fn marks(l: Lay) -> Vec<u128> {
    let m = l.sign() - 1;
    let mut v = vec![];
    for i in 0..l.bits - 1 { for d in [0u128, 1, 2] { v.push((1u128 << i).wrapping_add(d) & m); v.push((1u128 << i).wrapping_sub(d) & m) } }
    for d in 0..9u128 { for x in [l.inf(), 1 << l.sig, (1 << l.sig) << 1, (l.inf() >> l.sig >> 1) << l.sig, m] { v.push(x.wrapping_add(d) & m); v.push(x.wrapping_sub(d) & m) } }
    for k in [0x5555_5555_5555_5555_5555_5555_5555_5555u128, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210] { v.push(k & m) }
    v.extend(0..9);
    let w: Vec<u128> = v.iter().map(|x| x | l.sign()).collect();
    v.extend(w);
    v.sort(); v.dedup();
    v
}
macro_rules! stepping {
    ($t:ident, $u:ty, $all:expr) => {{
        let l = Lay { bits: <$u>::BITS, sig: <$t as Float>::SIG_BITS };
        let name = stringify!($t);
        let ck = move |op: &str, b: $u, n: u128, got: Result<$u, String>, want: u128| if got.as_ref().ok() != Some(&(want as $u)) {
            violation(&format!("{name}::{op}"), &format!("{b:#x} n={n:#x}"), &got.map_or_else(|e| e, |x| format!("{x:#x}")), &format!("{want:#x}"));
        };
        // one step, from every value of the small formats
        let one = move |b: $u| {
            let f = <$t as Float>::from_bits(b);
            let r = guard(|| (FloatExt::next_up(f).to_bits(), FloatExt::next_down(f).to_bits(), f.n_up(1).to_bits(), f.n_down(1).to_bits()));
            let (u, d) = (l.up(b as u128, 1), l.down(b as u128, 1));
            if r.as_ref().ok() == Some(&(u as $u, d as $u, u as $u, d as $u)) { return }
            let r = |i: usize| r.clone().map(|t| [t.0, t.1, t.2, t.3][i]);
            ck("next_up", b, 1, r(0), u); ck("next_down", b, 1, r(1), d);
            ck("n_up", b, 1, r(2), u); ck("n_down", b, 1, r(3), d);
        };
        let ms = marks(l);
        let th = g().thorough;
        let full: u64 = if $all && (l.bits <= 16 || th) { 1 << l.bits } else { 0 };
        let ch = 1u64 << 14;
        par(name, full.div_ceil(ch), |c| for b in c * ch..((c + 1) * ch).min(full) { one(b as $u) });
        for &b in &ms { one(b as $u) }
        count(&format!("{name} next"), full + ms.len() as u64, 4);
        // n steps: all x all for f8, all x marks for f16 (thorough: all x all), marks x marks above
        let full_b: u64 = if l.bits <= 16 { 1 << l.bits } else { 0 };
        let full_n: u64 = if l.bits == 8 || (l.bits == 16 && th) { 1 << l.bits } else { 0 };
        // amounts: the marks, and for each start the distances to zero, the infinities and the wrap-around point
        let amounts = |b: u128, v: &mut Vec<u128>| {
            v.clear();
            let m = b & !l.sign();
            for x in [m, l.inf().wrapping_sub(m), l.inf() + m, l.sign() - m, (l.sign() << 1).wrapping_sub(m), (l.sign() << 1).wrapping_sub(b), l.sign() + m] {
                for d in 0..3u128 { v.push(x.wrapping_add(d)); v.push(x.wrapping_sub(d)) }
            }
            let mask = l.sign() | (l.sign() - 1);
            for x in v.iter_mut() { *x &= mask }
        };
        let two = |b: $u, n: u128| {
            let f = <$t as Float>::from_bits(b);
            let r = guard(|| (f.n_up(n as $u).to_bits(), f.n_down(n as $u).to_bits()));
            let (u, d) = (l.up(b as u128, n), l.down(b as u128, n));
            if r.as_ref().ok() == Some(&(u as $u, d as $u)) { return }
            ck("n_up", b, n, r.clone().map(|t| t.0), u);
            ck("n_down", b, n, r.map(|t| t.1), d);
        };
        let nb = if full_b > 0 { full_b } else { ms.len() as u64 };
        par(name, nb.div_ceil(64), |c| {
            let mut v = vec![];
            for i in c * 64..((c + 1) * 64).min(nb) {
                let b = if full_b > 0 { i as u128 } else { ms[i as usize] };
                if full_n > 0 { for n in 0..full_n { two(b as $u, n as u128) } } else {
                    for &n in &ms { two(b as $u, n) }
                    amounts(b, &mut v);
                    for &n in &v { two(b as $u, n) }
                }
            }
        });
        count(&format!("{name} n steps"), nb * if full_n > 0 { full_n } else { ms.len() as u64 + 42 }, 2);
        note(format!("{name}: one step up/down from {} values, n steps from {nb} values x {} amounts, against a number-line model", full.max(ms.len() as u64), if full_n > 0 { full_n } else { ms.len() as u64 + 42 }));
        // the special values: both signs of the NaNs with least / greatest payload, quiet / signalling
        let c = <$t as FloatExt>::consts();
        let q = 1u128 << (l.sig - 1);
        let s = l.sign();
        let want = [("pos_nan", l.inf() | q, c.pos_nan), ("neg_nan", s | l.inf() | q, c.neg_nan), ("max_qnan", s - 1, c.max_qnan), ("min_snan", l.inf() + 1, c.min_snan), ("max_snan", l.inf() | (q - 1), c.max_snan),
            ("neg_max_qnan", s | (s - 1), c.neg_max_qnan), ("neg_min_snan", s | (l.inf() + 1), c.neg_min_snan), ("neg_max_snan", s | l.inf() | (q - 1), c.neg_max_snan)];
        let mut all: Vec<$u> = vec![];
        for (nm, w, v) in want { if v.to_bits() != w as $u { violation(&format!("{name}::consts"), nm, &format!("{:#x}", v.to_bits()), &format!("{w:#x}")) } all.push(w as $u) }
        let mut it: Vec<$u> = c.iter().map(|x| x.to_bits()).collect();
        all.sort(); it.sort();
        if all != it { violation(&format!("{name}::consts"), "iter", &format!("{it:x?}"), &format!("{all:x?}")) }
        count(&format!("{name} consts"), 9, 1);
    }};
}
macro_rules! lspace {
    ($t:ident, $u:ty, $l:expr, $s:expr, $e:expr, $n:expr) => {{
        let (l, s, e, n): (Lay, u128, u128, u128) = ($l, $s, $e, $n);
        let between = (l.rank(e) - l.rank(s)) as u128;
        let steps = n - 1;
        let (cnt, sp) = (steps.min(between) + 1, (between / steps).max(1));
        let r = guard(|| {
            let (it, c) = logspace(<$t as Float>::from_bits(s as $u), <$t as Float>::from_bits(e as $u), n as $u);
            let mut k = 0u128;
            for x in it {
                if x.to_bits() as u128 != l.up(s, sp * k) { return Err(format!("item {k} is {:#x}, expected {:#x}", x.to_bits(), l.up(s, sp * k))) }
                k += 1;
                if k > cnt { return Err(format!("more than {cnt} items")) }
            }
            if k != cnt || c as u128 != cnt { return Err(format!("{k} items, announced {c}")) }
            Ok(())
        });
        match r { Ok(Ok(())) => (), Ok(Err(m)) | Err(m) => violation(concat!("logspace::<", stringify!($t), ">"), &format!("{s:#x}, {e:#x}, {n}"), &m, &format!("{cnt} values, {sp} steps apart")) }
        cnt as u64
    }};
}
pub fn c30() {
    stepping!(f8, u8, true);
    stepping!(f16, u16, true);
    stepping!(f32, u32, true);
    stepping!(f64, u64, false);
    stepping!(f128, u128, false);
    // f8 itself: the list of all values, comparisons, negation, classification, against exact values
    let val = |b: u8| -> f64 {
        let (e, m) = ((b >> 3 & 15) as i32, (b & 7) as f64);
        let v = if e == 15 { if m == 0.0 { f64::INFINITY } else { f64::NAN } } else if e == 0 { m / 512.0 } else { (8.0 + m) * 2f64.powi(e - 10) };
        if b >> 7 == 1 { -v } else { v }
    };
    let all: Vec<u8> = f8::ALL.iter().map(|x| x.to_bits()).collect();
    let mut model: Vec<u8> = (0..=255u8).filter(|&b| val(b).is_finite()).collect();
    model.sort_by(|&a, &b| val(a).partial_cmp(&val(b)).unwrap().then((b >> 7).cmp(&(a >> 7))));
    if all != model { violation("f8::ALL", "all", &format!("{all:x?}"), &format!("{model:x?}")) }
    for a in 0..=255u8 {
        let x = f8::from_bits(a);
        let got = guard(|| (x.is_nan(), x.is_infinite(), x.is_sign_negative(), (-x).to_bits(), x.abs().to_bits(), x.to_bits_signed()));
        let w = (val(a).is_nan(), val(a).is_infinite(), a >> 7 == 1, a ^ 128, a & 127, a as i8);
        if got.as_ref().ok() != Some(&w) { violation("f8", &format!("{a:#x}"), &format!("{got:?}"), &format!("{w:?}")) }
        for b in 0..=255u8 {
            let y = f8::from_bits(b);
            let got = guard(|| (x.partial_cmp(&y), x == y, x < y, x <= y, x > y, x >= y, x.copysign(y).to_bits()));
            let o = val(a).partial_cmp(&val(b));
            let is = |v: &[Ordering]| o.is_some_and(|o| v.contains(&o));
            let w = (o, is(&[Ordering::Equal]), is(&[Ordering::Less]), is(&[Ordering::Less, Ordering::Equal]), is(&[Ordering::Greater]), is(&[Ordering::Greater, Ordering::Equal]), a & 127 | b & 128);
            if got.as_ref().ok() != Some(&w) { violation("f8 compare", &format!("{a:#x}, {b:#x}"), &format!("{got:?}"), &format!("{w:?}")) }
        }
    }
    count("f8", 256 + 65536, 7);
    // logspace: f8 every start, end and step count
    let l8 = Lay { bits: 8, sig: 3 };
    let ok: Vec<u8> = (0..=255u8).filter(|&b| !val(b).is_nan()).collect();
    par("logspace f8", ok.len() as u64, |i| {
        let s = ok[i as usize];
        let (mut k, mut c) = (0, 0);
        for &e in &ok {
            if val(e) < val(s) { continue }
            for n in 2..=255u128 { c += lspace!(f8, u8, l8, s as u128, e as u128, n); k += 1 }
        }
        count("logspace f8", k, 1); calls(c);
    });
    note("logspace::<f8>: every (start, end, steps) with start <= end and steps 2..=255");
    let l16 = Lay { bits: 16, sig: 10 };
    let mut m16: Vec<u16> = marks(l16).into_iter().map(|x| x as u16).filter(|&x| !l16.nan(x as u128)).collect();
    if !g().thorough { m16 = m16.into_iter().step_by(3).chain([0, 0x8000, 0x7c00, 0xfc00, 0x7bff, 0xfbff, 1, 0x8001, 0x3c00]).collect() }
    par("logspace f16", m16.len() as u64, |i| {
        let s = m16[i as usize];
        let (mut k, mut c) = (0, 0);
        for &e in &m16 {
            if l16.rank(e as u128) < l16.rank(s as u128) { continue }
            let d = (l16.rank(e as u128) - l16.rank(s as u128)) as u128;
            for n in [2, 3, 4, 5, 7, 10, 100, 1000, 4095, d / 2, d / 2 + 1, d.saturating_sub(1), d, d + 1, d + 2, 65534, 65535] {
                if (2..=65535).contains(&n) { c += lspace!(f16, u16, l16, s as u128, e as u128, n); k += 1 }
            }
        }
        count("logspace f16", k, 1); calls(c);
    });
    let (l32, l64, l128) = (Lay { bits: 32, sig: 23 }, Lay { bits: 64, sig: 52 }, Lay { bits: 128, sig: 112 });
    macro_rules! wide { ($t:ident, $u:ty, $l:expr) => {{
        let l: Lay = $l;
        let ms: Vec<u128> = marks(l).into_iter().filter(|&x| !l.nan(x)).step_by(if g().thorough { 1 } else { 3 }).chain([0, l.sign(), l.inf(), l.inf() | l.sign(), l.inf() - 1]).collect();
        par(concat!("logspace ", stringify!($t)), ms.len() as u64, |i| {
            let s = ms[i as usize];
            let (mut k, mut c) = (0, 0);
            for &e in &ms {
                if l.rank(e) < l.rank(s) { continue }
                let d = (l.rank(e) as u128).wrapping_sub(l.rank(s) as u128);
                for n in [2, 3, 4, 5, 17, 100, d, d.wrapping_add(1), d.wrapping_add(2)] {
                    if (2..=400).contains(&n) { c += lspace!($t, $u, l, s, e, n); k += 1 }
                }
            }
            count(concat!("logspace ", stringify!($t)), k, 1); calls(c);
        });
    }} }
    wide!(f32, u32, l32);
    wide!(f64, u64, l64);
    // f128 distances across zero can exceed i128: the model handles ends of equal sign and short ranges
    {
        let l = l128;
        let ms: Vec<u128> = marks(l).into_iter().filter(|&x| !l.nan(x)).step_by(if g().thorough { 1 } else { 5 }).chain([0, l.sign(), l.inf(), l.inf() | l.sign(), l.inf() - 1]).collect();
        par("logspace f128", ms.len() as u64, |i| {
            let s = ms[i as usize];
            let (mut k, mut c) = (0, 0);
            for &e in &ms {
                if l.rank(e) < l.rank(s) { continue }
                let Some(d) = l.rank(e).checked_sub(l.rank(s)) else { continue };
                for n in [2, 3, 4, 5, 17, 100, d as u128, d as u128 + 1, (d as u128).wrapping_add(2)] {
                    if (2..=400).contains(&n) { c += lspace!(f128, u128, l, s, e, n); k += 1 }
                }
            }
            count("logspace f128", k, 1); calls(c);
        });
    }
    // linear_ints
    let mut pts: Vec<i64> = vec![];
    let w = if g().thorough { 40 } else { 16 };
    for c in [i32::MIN as i64, -65536, -256, 0, 255, 65535, 1 << 30, i32::MAX as i64] { for d in -w..=w { pts.push(c + d) } }
    pts.retain(|&x| x >= i32::MIN as i64 && x <= i32::MAX as i64);
    pts.sort(); pts.dedup();
    par("linear_ints", pts.len() as u64, |i| {
        let s = pts[i as usize];
        let (mut k, mut c) = (0, 0);
        for &e in &pts {
            if e < s { continue }
            let d = (e - s) as u64;
            let mut ns: Vec<u64> = (2..24).chain([100, 255, 1000]).collect();
            for x in [d / 2, d] { for y in 0..3 { ns.push(x + y) ; ns.push(x.saturating_sub(y)) } }
            ns.extend([1 << 32, (1 << 32) + 1, u64::MAX]);
            ns.sort(); ns.dedup();
            for n in ns {
                if n < 2 { continue }
                let (cnt, sp) = ((n - 1).min(d) + 1, (d / (n - 1)).max(1));
                if cnt > 2000 { continue }
                let r = guard(|| {
                    let (it, a) = linear_ints(s as i32..=e as i32, n);
                    let mut j = 0u64;
                    for x in it {
                        let w = s + (sp * j) as i64;
                        if x as i64 != w { return Err(format!("item {j} is {x}, expected {w}")) }
                        j += 1;
                        if j > cnt { return Err(format!("more than {cnt} items")) }
                    }
                    if j != cnt || a != cnt { return Err(format!("{j} items, announced {a}")) }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => (),
                    // listed in known_findings.txt
                    Err(m) if n == 2 && d > i32::MAX as u64 => violation("linear_ints", "two points more than i32::MAX apart", &m, &format!("{cnt} integers, {sp} apart")),
                    Ok(Err(m)) | Err(m) => violation("linear_ints", &format!("{s}..={e}, {n}"), &m, &format!("{cnt} integers, {sp} apart")),
                }
                k += 1; c += cnt;
            }
        }
        count("linear_ints", k, 1); calls(c);
    });
    note(format!("linear_ints: all pairs of {} range ends x step counts 2..24 and around the range length", pts.len()));
}
