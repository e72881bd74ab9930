//! prints what the enumerations of libm-test say about every routine (read by checks/c32.py)
use libm_test::{Identifier, op::ALL_OPERATIONS};
pub fn names() {
    let mut all: Vec<&str> = vec![];
    for &id in Identifier::ALL {
        let n = id.as_str();
        all.push(n);
        let o = id.math_op();
        let l = |s: &[libm_test::Ty]| s.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(",");
        let same = Identifier::from_str(n) == Some(id) && format!("{id}") == n && format!("{}", id.base_name()) == id.base_name().as_str() && ALL_OPERATIONS.iter().filter(|x| x.name == n).count() == 1;
        println!("id\x01{n}\x01{}\x01{id:?}\x01{}\x01{:?}\x01{:?}\x01{}\x01{}\x01{}\x01{}\x01{same}", o.name, id.base_name().as_str(), id.base_name(), o.float_ty, l(o.rust_sig.args), l(o.rust_sig.returns), l(o.c_sig.args), l(o.c_sig.returns));
    }
    if ALL_OPERATIONS.len() != all.len() { println!("bad\x01ALL_OPERATIONS\x01{} entries", ALL_OPERATIONS.len()) }
    let mut c = 0u64;
    let mut try_ = |s: &str| { c += 1; if let Some(i) = Identifier::from_str(s) { if !all.contains(&s) || i.as_str() != s { println!("bad\x01{s}\x01{i:?}") } } };
    // every short string, and everything one edit away from a name
    let al: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789_ ".chars().collect();
    for a in &al { try_(&a.to_string()); for b in &al { try_(&format!("{a}{b}")); for d in &al { try_(&format!("{a}{b}{d}")) } } }
    for n in &all {
        for i in 0..=n.len() {
            for a in &al { try_(&format!("{}{a}{}", &n[..i], &n[i..])) }
            if i < n.len() { try_(&format!("{}{}", &n[..i], &n[i + 1..])); for a in &al { try_(&format!("{}{a}{}", &n[..i], &n[i + 1..])) } }
        }
        try_(&n.to_uppercase());
        for s in ["f", "f16", "f32", "f64", "f128", "l", "_r"] { try_(&format!("{n}{s}")) }
    }
    println!("badcount\x01{c}");
}
