//! C28: hexadecimal floating-point text is parsed with correct rounding and formatted exactly.
use crate::big::Bits;
use crate::infra::*;
use libm::support::hex_float::{parse_any, parse_hex_exact};
use libm::support::{hf128, hf16, hf32, hf64, Hexf, Round};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct St { pub o: bool, pub u: bool, pub x: bool }
pub const ROUNDS: [Round; 4] = [Round::Nearest, Round::Negative, Round::Positive, Round::Zero];

/// exact value sig * 2^exp of well-formed text
pub struct Val { pub neg: bool, pub kind: Kind }
pub enum Kind { Inf, Nan, Fin(Bits, i64) }

/// grammar: [+-] ( inf | nan | 0x H* [. H*] p [+-] D+ ) with at least one hexadecimal digit
pub fn read(s: &[u8]) -> Option<Val> {
    let (neg, r) = match s.first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    let low: Vec<u8> = r.iter().map(|c| c.to_ascii_lowercase()).collect();
    if low == b"inf" { return Some(Val { neg, kind: Kind::Inf }) }
    if low == b"nan" { return Some(Val { neg, kind: Kind::Nan }) }
    let r = low.strip_prefix(b"0x")?;
    let p = r.iter().position(|&c| c == b'p')?;
    let (m, e) = (&r[..p], &r[p + 1..]);
    let mut digits = Bits::zero();
    let (mut nd, mut frac, mut point) = (0u64, 0i64, false);
    for &c in m {
        if c == b'.' { if point { return None } point = true; continue }
        let d = (c as char).to_digit(16)?;
        nd += 1;
        digits.shl4_add(d as u64);
        if point { frac += 4 }
    }
    if nd == 0 { return None }
    let (eneg, e) = match e.first() { Some(b'-') => (true, &e[1..]), Some(b'+') => (false, &e[1..]), _ => (false, e) };
    if e.is_empty() { return None }
    let mut x = 0i64;
    for &c in e { if !c.is_ascii_digit() { return None } x = (x * 10 + (c - b'0') as i64).min(1 << 50) }
    Some(Val { neg, kind: Kind::Fin(digits, if eneg { -x } else { x } - frac) })
}
/// round the value to the format
pub fn round(v: &Val, bits: u32, sig: u32, rm: Round) -> (u128, St) {
    let sign = if v.neg { 1u128 << (bits - 1) } else { 0 };
    let ok = St { o: false, u: false, x: false };
    let ebits = bits - sig - 1;
    let bias = (1i64 << (ebits - 1)) - 1;
    let inf = ((1u128 << ebits) - 1) << sig;
    let (d, e) = match &v.kind { Kind::Inf => return (sign | inf, ok), Kind::Nan => return (sign | inf | 1 << (sig - 1), ok), Kind::Fin(d, e) => (d, *e) };
    if d.is_zero() { return (sign, ok) }
    let up = match rm { Round::Positive => !v.neg, Round::Negative => v.neg, _ => false };
    let over = |r: u128| (sign | r, St { o: true, u: false, x: true });
    let ovr = || over(if up || rm == Round::Nearest { inf } else { inf - 1 });
    let msb = e + d.len() - 1;
    if msb > bias { return ovr() }
    let minl = 1 - bias - sig as i64;
    // unit of the result
    let q = (msb - sig as i64).max(minl);
    // m = floor(value / 2^q), with the first dropped bit and the rest
    let lo = q - e; // bit index in d of the unit
    let m = d.window(lo);
    let half = d.bit(lo - 1);
    let rest = d.any_below(lo - 1);
    let inexact = half || rest;
    let inc = match rm { Round::Nearest => half && (rest || m & 1 == 1), _ => up && inexact };
    let (mut m, mut q) = (m + inc as u128, q);
    if m == 1u128 << (sig + 1) { m >>= 1; q += 1 }
    let st = |r: u128| St { o: false, u: inexact && r < 1u128 << sig, x: inexact };
    if m < 1u128 << sig { return (sign | m, st(m)) } // subnormal or zero
    let ef = q - minl + 1;
    if ef >= (1i64 << ebits) - 1 { return ovr() }
    let r = (ef as u128) << sig | (m & ((1u128 << sig) - 1));
    (sign | r, st(r))
}
pub type Fmt = (u32, u32);
pub const FMTS: [Fmt; 5] = [(8, 3), (16, 10), (32, 23), (64, 52), (128, 112)];

fn show(r: &Result<Option<(u128, St)>, String>) -> String {
    match r { Err(m) => m.clone(), Ok(None) => "an error".into(), Ok(Some((b, s))) => format!("{b:#x} overflow={} underflow={} inexact={}", s.o, s.u, s.x) }
}
/// one text, one format, all four rounding modes plus the exact form; returns the number of calls
fn check(s: &str, (bits, sig): Fmt) -> u64 {
    let v = read(s.as_bytes());
    let mut ok_all = None;
    for rm in ROUNDS {
        let want = Ok(v.as_ref().map(|v| round(v, bits, sig, rm)));
        let got = guard(|| parse_any(s, bits, sig, rm).ok().map(|(b, st)| (b, St { o: st.overflow(), u: st.underflow(), x: st.inexact() })));
        if got != want { violation("parse_any", &format!("{s:?}, {bits}, {sig}, {rm:?}"), &show(&got), &show(&want)) }
        if rm == Round::Nearest { ok_all = want.unwrap() }
    }
    let want: Result<Option<u128>, String> = Ok(match ok_all { Some((b, St { x: false, .. })) => Some(b), _ => None });
    let got = guard(|| parse_hex_exact(s, bits, sig).ok());
    if got != want { violation("parse_hex_exact", &format!("{s:?}, {bits}, {sig}"), &format!("{got:x?}"), &format!("{want:x?}")) }
    let typed = match (bits, sig) {
        (16, 10) => Some(guard(|| hf16(s).to_bits() as u128)),
        (32, 23) => Some(guard(|| hf32(s).to_bits() as u128)),
        (64, 52) => Some(guard(|| hf64(s).to_bits() as u128)),
        (128, 112) => Some(guard(|| hf128(s).to_bits())),
        _ => None,
    };
    // the typed forms panic exactly when the exact form fails
    if let Some(t) = typed {
        if t.clone().ok() != want.clone().unwrap() { violation(&format!("hf{bits}"), &format!("{s:?}"), &format!("{t:x?}"), &format!("{want:x?}")) }
        return 6;
    }
    5
}
fn run(op: &str, desc: &str, n: u64, block: u64, text: impl Fn(u64, &mut String) + Sync, fmts: &[Fmt]) {
    let t = g().t0.elapsed().as_secs_f64();
    par(op, n.div_ceil(block), |b| {
        let (mut s, mut calls) = (String::new(), 0);
        for i in b * block..(b * block + block).min(n) {
            s.clear();
            text(i, &mut s);
            for f in fmts { calls += check(&s, *f) }
            if stopped() { return }
        }
        let m = ((b * block + block).min(n) - b * block) * fmts.len() as u64;
        count(op, m, 0);
        crate::infra::calls(calls);
        if b == 0 { let mut s = String::new(); text(n / 2, &mut s); sample(format!("{op}: {s:?}")) }
    });
    note(format!("{desc}: {n} texts x {} formats x 4 rounding modes and the exact forms ({:.1}s)", fmts.len(), g().t0.elapsed().as_secs_f64() - t));
}
/// hexadecimal text of sig * 2^exp in one of several spellings
pub fn spell(neg: bool, sig: u128, exp: i64, form: u32, s: &mut String) {
    if neg { s.push('-') }
    let d = format!("{sig:x}");
    match form {
        0 => write!(s, "0x{d}p{exp}"),
        1 => write!(s, "0x{}.{}p{:+}", &d[..1], &d[1..], exp + 4 * (d.len() as i64 - 1)),
        2 => write!(s, "0X.{}P{}", d.to_uppercase(), exp + 4 * d.len() as i64),
        3 => write!(s, "0x000000000000000000000000000000000000000{d}.p{exp:+05}"),
        4 => write!(s, "0x0.0000000000000000000000000000000000000{d}p{}", exp + 4 * (d.len() as i64 + 37)),
        5 => write!(s, "0x{d}0000000000000000000000000000000000000000p{}", exp - 160),
        6 => write!(s, "0x{d}.00000000000000000000000000000000000000p{exp}"),
        _ => { let k = d.len() / 2; write!(s, "0x{}.{}p{}", &d[..k], &d[k..], exp + 4 * (d.len() - k) as i64) }
    }.unwrap()
}
pub const FORMS: u32 = 8;
/// every representable magnitude of a format as (significand, exponent)
fn value((bits, sig): Fmt, b: u128) -> (u128, i64) {
    let e = (b >> sig) as i64;
    let bias = (1i64 << (bits - sig - 2)) - 1;
    let f = b & ((1u128 << sig) - 1);
    if e == 0 { (f, 1 - bias - sig as i64) } else { (f | 1 << sig, e - bias - sig as i64) }
}
fn lattice((bits, sig): Fmt, lead: u32) -> Vec<u128> {
    let ebits = bits - sig - 1;
    let ne = (1u64 << ebits) - 1;
    let es: Vec<u64> = if ne < 5000 { (0..ne).collect() } else { let mut v: Vec<u64> = (0..180).chain(ne / 2 - 260..ne / 2 + 260).chain(ne - 180..ne).collect(); for k in 0..ebits { for d in 0..3u64 { v.push(((1u64 << k) + d - 1).min(ne - 1)) } } v.sort(); v.dedup(); v };
    let mut fs = vec![];
    for l in 0..1u128 << lead.min(sig) { for t in [0u128, 1, 2, (1 << (sig - lead.min(sig))) - 1, (1 << (sig - lead.min(sig))) >> 1] { fs.push((l << (sig - lead.min(sig))) | (t & ((1u128 << (sig - lead.min(sig))) - 1))) } }
    fs.sort(); fs.dedup();
    let mut v = vec![];
    for e in es { for f in &fs { v.push((e as u128) << sig | f) } }
    v
}
pub fn c28() {
    let t = g().thorough;
    // (a) all short strings
    let alpha: &[u8] = b"0x1p.-+8fFinaPXeg9N";
    for len in 0..=4u32 {
        run("short strings", &format!("every string of length {len} over {} symbols", alpha.len()), (alpha.len() as u64).pow(len), 4096, |mut i, s| { for _ in 0..len { s.push(alpha[(i % alpha.len() as u64) as usize] as char); i /= alpha.len() as u64 } }, &[(16, 10), (64, 52)]);
    }
    let body: &[u8] = b"0178f.p-+9g";
    for len in 0..=if t { 8u32 } else { 6 } {
        for pre in ["0x", "-0X"] {
            if len >= 7 && pre == "-0X" { continue }
            run("short bodies", &format!("{pre} followed by every string of length {len} over {} symbols", body.len()), (body.len() as u64).pow(len), 4096, |mut i, s| { s.push_str(pre); for _ in 0..len { s.push(body[(i % body.len() as u64) as usize] as char); i /= body.len() as u64 } }, &[(16, 10)]);
        }
    }
    // well-formed bodies: digits . digits p exponent
    let dig: &[u8] = b"0137cf8";
    for (a, b) in [(1u32, 0u32), (0, 1), (2, 2), (1, 3), (3, 2), (2, 4), (5, 1), (1, 5), (0, 6)] {
        if a + b == 6 && a != 2 && !t { continue }
        let n = (dig.len() as u64).pow(a + b);
        run("significands", &format!("every {a}+{b} digit significand over {} digits x 64 exponents", dig.len()), n * 64, 2048, |i, s| {
            let (mut k, e) = (i / 64, i % 64);
            s.push_str("0x");
            for j in 0..a + b { if j == a { s.push('.') } s.push(dig[(k % 7) as usize] as char); k /= 7 }
            write!(s, "p{}", e as i64 - 40).unwrap();
        }, &[(8, 3), (16, 10)]);
    }
    // (b) every value and every rounding boundary next to it, in several spellings
    for &f in &FMTS {
        let (bits, sig) = f;
        let vals: Vec<u128> = if bits <= 16 { (0..((1u128 << (bits - sig - 1)) - 1) << sig).collect() } else { lattice(f, if t { 6 } else if bits == 32 { 3 } else { 1 }) };
        // offsets in eighths of an ulp: exact, tiny above, just below/at/above half, just below next
        const OFF: [u128; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
        let forms = if bits <= 16 || t { FORMS } else { 4 };
        let n = vals.len() as u64 * 9 * forms as u64 * 2;
        run(&format!("boundaries{bits}"), &format!("binary{bits}: {} magnitudes x 9 offsets x {forms} spellings x 2 signs", vals.len()), n, 512, |i, s| {
            let neg = i & 1 == 1;
            let i = i / 2;
            let (k, r) = (i / (9 * forms as u64), i % (9 * forms as u64));
            let (m, e) = value(f, vals[k as usize]);
            let form = if bits <= 16 { (r / 9) as u32 } else { ((r / 9) as u32 * 2 + (k as u32 & 1)) % FORMS };
            spell(neg, m * 8 + OFF[(r % 9) as usize], e - 3, form, s);
        }, &[f]);
    }
    // overflow threshold, and around the smallest subnormal
    for &f in &FMTS {
        let (bits, sig) = f;
        let top = ((1u128 << (bits - sig - 1)) - 1) << sig;
        let (m, e) = value(f, top - 1);
        let lo = value(f, 1).1;
        run("limits", &format!("binary{bits}: 2^10 magnitudes around the overflow threshold, half of the smallest subnormal and the smallest normal, in {FORMS} spellings"), 3 * 1024 * FORMS as u64 * 2, 256, |i, s| {
            let (neg, i) = (i & 1 == 1, i / 2);
            let (k, form) = (i % 1024, (i / 1024) as u32 % FORMS);
            match i / 1024 / FORMS as u64 { 0 => spell(neg, m * 256 + k as u128 / 2 + 0, e - 8, form, s), 1 => spell(neg, k as u128, lo - 9, form, s), _ => spell(neg, (1u128 << (sig + 8)) - 512 + k as u128, lo - 8, form, s) }
        }, &[f]);
    }
    // (c) long digit strings: patterns x length x position of the point x exponent placement
    let pats: [(&str, &str, &str); 9] = [("1", "0", "1"), ("1", "0", "0"), ("8", "0", "1"), ("f", "f", "f"), ("7", "f", "f"), ("0", "0", "1"), ("1", "f", "8"), ("8", "0", "8"), ("0", "f", "0")];
    let maxl = if t { 80u64 } else { 48 };
    let exps = [0i64, -14, -24, -25, 15, 16, -126, -149, -150, 127, -1022, -1074, 1023, -16382, -16494, 16383, -16496];
    for &f in &FMTS {
        run("long", &format!("binary{}: {} digit patterns x every length up to {maxl} x every position of the point x {} exponents of the leading digit", f.0, pats.len(), exps.len()), pats.len() as u64 * maxl * (maxl + 1) * exps.len() as u64, 2048, |i, s| {
            let (p, r) = (i % pats.len() as u64, i / pats.len() as u64);
            let (e, r) = (exps[(r % exps.len() as u64) as usize], r / exps.len() as u64);
            let (len, pt) = (r / (maxl + 1) + 1, (r % (maxl + 1)).min(r / (maxl + 1) + 1));
            s.push_str("0x");
            for j in 0..len { if j == pt { s.push('.') } s.push_str(if j == 0 { pats[p as usize].0 } else if j + 1 == len { pats[p as usize].2 } else { pats[p as usize].1 }) }
            write!(s, "p{}", e - 4 * pt as i64 + 4).unwrap();
        }, &[f]);
    }
    // (c') a tie whose tail starts past the digits the parser can hold: every tail of up to 5 digits over {0, 1, 8, f}
    for &f in &FMTS {
        let sig = f.1 as usize;
        let nt: u64 = (0..=5u32).map(|k| 4u64.pow(k)).sum();
        let lens: Vec<usize> = (sig / 4 + 1..sig / 4 + 3).chain(29..=36).filter(|&l| l > sig / 4).collect();
        run("tails", &format!("binary{}: even and odd ties padded to {} lengths x {nt} tails x 3 paddings x 2 positions of the point", f.0, lens.len()), 2 * lens.len() as u64 * nt * 6, 512, |i, s| {
            let (odd, i) = (i % 2, i / 2);
            let (pt, i) = ((i % 2) as usize, i / 2);
            let (z, i) = ([0, 1, 3][(i % 3) as usize], i / 3);
            let (l, mut r) = (lens[(i % lens.len() as u64) as usize], i / lens.len() as u64);
            let mut k = 0; while r >= 4u64.pow(k) { r -= 4u64.pow(k); k += 1 }
            let mut d = vec![0u8; l]; d[sig / 4] |= 8 >> (sig % 4); if odd == 1 && sig >= 1 { d[(sig - 1) / 4] |= 8 >> ((sig - 1) % 4) }
            for _ in 0..k { d.push([0, 1, 8, 15][(r % 4) as usize]); r /= 4 }
            d.resize(d.len() + z, 0);
            s.push_str("0x1"); if pt == 0 { s.push('.') }
            for x in &d { s.push(char::from_digit(*x as u32, 16).unwrap()) }
            write!(s, "p{}", if pt == 0 { 3 } else { 3 - 4 * d.len() as i64 }).unwrap();
        }, &[f]);
    }
    // (d) extreme exponents
    let mut ex: Vec<String> = vec![];
    for b in [0i128, 1 << 8, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 29, 1 << 30, 1 << 31, 1 << 32, 1 << 33, 42949672950, 42949672960, 1 << 40, 1 << 62, 1 << 63, 1 << 64, 10i128.pow(25)] { for d in -20..=20i128 { if b + d >= 0 { ex.push(format!("{}", b + d)) } } }
    for k in 1..60 { ex.push("9".repeat(k)); ex.push(format!("1{}", "0".repeat(k))); ex.push(format!("{}7", "0".repeat(k))); ex.push(format!("{}12", "4294967295".repeat(k / 4 + 1))) }
    let sigs = ["1", "0", "0.0", "8", "f.f", "0.00000000000000000000000000000000001", "100000000000000000000000000000000000", "0.1", "3", "ffffffffffffffffffffffffffffffff", "1.fffffffffffffffffffffffffffffff8", "0000000000000000000000000000000000000000000000001"];
    for &f in FMTS.iter().chain(&[(128, 98), (32, 2), (60, 30), (24, 16)]) {
        run("exponents", &format!("({}, {}): {} exponent texts x 2 signs x {} significands x 2 signs", f.0, f.1, ex.len(), sigs.len()), ex.len() as u64 * 4 * sigs.len() as u64, 256, |i, s| {
            let (sg, i) = (i % 4, i / 4);
            if sg & 1 == 1 { s.push('-') }
            write!(s, "0x{}p{}{}", sigs[(i % sigs.len() as u64) as usize], if sg & 2 == 2 { "-" } else { "" }, ex[(i / sigs.len() as u64) as usize]).unwrap();
        }, &[f]);
    }
    // every format the parser accepts, and every one it must refuse
    let texts: Vec<String> = { let mut v: Vec<String> = ["0x1p0", "-0x1.8p-1", "0x1.ffffffffffffffffffffffffffffffffp3", "inf", "-NaN", "0x0p0", "0x1p536870911", "0x1p-536870911", "0x1p65536", "-0x1p-65536", "0x3p-30", "0x1.8p-3", "0xffffffffffffffffffffffffffffffffffp-40", "0x1.00000000000000000000000000000001p0"].iter().map(|s| s.to_string()).collect();
        for e in -20..20 { v.push(format!("0x1.55p{e}")) } for e in 1..29 { for d in -1..=1i64 { v.push(format!("0x1p{}", (1i64 << e) + d)); v.push(format!("-0x1.8p-{}", (1i64 << e) + d)); v.push(format!("0x1.8p-{}", (1i64 << e) + 118 + d)); } } v };
    let fm: Vec<Fmt> = (1..=119u32).flat_map(|s| (s + 3..=(s + 30).min(128)).map(move |b| (b, s))).collect();
    par("formats", fm.len() as u64, |i| { let f = fm[i as usize]; let mut c = 0; for s in &texts { c += check(s, f); if stopped() { return } } count("formats", texts.len() as u64, 0); calls(c) });
    note(format!("all {} supported (width, significand) pairs x {} texts", fm.len(), texts.len()));
    let mut refused = 0;
    for s in 0..160u32 { for b in 0..200u32 { if s == 0 || (1..=119).contains(&s) && b >= s + 3 && b <= s + 30 && b <= 128 { continue } for tx in ["0x1p0", "inf", "0x", ""] { let r = guard(|| parse_any(tx, b, s, Round::Nearest).is_err()); if r != Ok(true) { violation("parse_any", &format!("{tx:?}, {b}, {s}"), &format!("{r:?}"), "an error: unsupported format") } refused += 1 } } }
    count("refused formats", refused, 1);
    format_side(t);
}
fn fmt_ref((bits, sig): Fmt, b: u128) -> String {
    let neg = b >> (bits - 1) & 1 == 1;
    let (e, f) = ((b & !(1u128 << (bits - 1))) >> sig, b & ((1u128 << sig) - 1));
    let ebits = bits - sig - 1;
    let bias = (1i64 << (ebits - 1)) - 1;
    let sg = if neg { "-" } else { "" };
    if e == (1 << ebits) - 1 { return if f == 0 { format!("{sg}inf") } else { format!("{sg}NaN") } }
    if e == 0 && f == 0 { return format!("{sg}0x0p+0") }
    let nd = sig.div_ceil(4);
    let ex = if e == 0 { 1 - bias } else { e as i64 - bias };
    let mut d = String::new();
    for k in (0..nd).rev() { let sh = k as i64 * 4 - (nd as i64 * 4 - sig as i64); let x = if sh >= 0 { f >> sh } else { f << -sh }; d.push(std::char::from_digit((x & 15) as u32, 16).unwrap()) }
    format!("{sg}0x{}.{d}p{}{}", if e == 0 { 0 } else { 1 }, if ex < 0 { '-' } else { '+' }, ex.abs())
}
macro_rules! one { ($b:expr, $t:ident, $bt:ident, $f:expr, $tuple:expr) => {{
    let x = $t::from_bits($b as $bt);
    let want = fmt_ref($f, $b as u128);
    let got = guard(|| { let h = Hexf(x); let a = format!("{h:x}"); if $tuple { let (p, q) = (format!("{h}"), format!("{h:?}")); if p != a || q != a { return format!("{a} / {p} / {q}") } } a });
    if got.as_ref() != Ok(&want) { violation("Hexf", &format!("{:#x}{}", $b, stringify!($t)), &format!("{got:?}"), &want) }
    if want.ends_with("NaN") { 1 } else {
        let back = guard(|| parse_any(&want, $f.0, $f.1, Round::Nearest).ok().map(|(b, s)| (b, s.inexact())));
        let w = Ok(Some(($b as u128, false)));
        if back != w { violation("round trip", &format!("{:#x}{}", $b, stringify!($t)), &format!("{back:x?}"), &format!("{w:x?}")) }
        2
    }
}}}
fn format_side(t: bool) {
    par("format16", 256, |h| { let mut c = 0; for l in 0..256u64 { c += one!(h << 8 | l, f16, u16, (16, 10), true); let y = f16::from_bits((h << 8 | l) as u16);
        let k = (l as i32 - 128) * 7919; let a = fmt_ref((16, 10), (h << 8 | l) as u128);
        let p = guard(|| (format!("{:x}", Hexf((y, y))), format!("{:x}", Hexf((y, k))), format!("{:x}", Hexf(k)), format!("{:?}", Hexf((y, y))), format!("{}", Hexf((y, k)))));
        let w = Ok((format!("({a}, {a})"), format!("({a}, {k:x})"), format!("{k:x}"), format!("({a}, {a})"), format!("({a}, {k:x})")));
        if p != w { violation("Hexf pair", &format!("{:#x}f16, {k}", h << 8 | l), &format!("{p:?}"), &format!("{w:?}")) } }
        count("format16", 256, 0); calls(c + 256 * 5) });
    note("format and read back: every binary16 value, alone and in pairs");
    if t { par("format32", 1 << 16, |h| { let mut c = 0; for l in 0..1u64 << 16 { c += one!(h << 16 | l, f32, u32, (32, 23), false); if stopped() { return } } count("format32", 1 << 16, 0); calls(c) }); note("format and read back: every binary32 value"); }
    for f in [(32u32, 23u32), (64, 52), (128, 112)] {
        let mut v = lattice(f, if f.0 == 32 { 8 } else if t { 8 } else { 3 });
        let inf = ((1u128 << (f.0 - f.1 - 1)) - 1) << f.1;
        for k in 0..f.1 { v.push(1 << k); v.push((1 << k) - 1); v.push(inf | 1 << k) }
        v.push(inf);
        let s = 1u128 << (f.0 - 1);
        par("format", (v.len() as u64).div_ceil(256), |b| { let mut c = 0; let e = (b as usize * 256 + 256).min(v.len()); for &x in &v[b as usize * 256..e] { for x in [x, x | s] { c += match f.0 { 32 => one!(x, f32, u32, f, true), 64 => one!(x, f64, u64, f, true), _ => one!(x, f128, u128, f, true) } } if stopped() { return } } count(&format!("format{}", f.0), 2 * (e as u64 - b * 256), 0); calls(c) });
        note(format!("format and read back: binary{} lattice of {} values, both signs", f.0, v.len()));
    }
}
