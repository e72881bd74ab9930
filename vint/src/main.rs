#![feature(f16, f128)]
#![allow(internal_features, dead_code)]
mod big;
mod infra;
mod evalref;
mod names;
mod c28;
mod c29;
mod c30;
mod c31;
mod c34;
use infra::*;
fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { std::process::exit(3) }
    if a[1] == "evalref" { return evalref::evalref() }
    if a[1] == "spawn" { return evalref::spawn(&a[2]) }
    if a[1] == "c34probe" { return c34::probe() }
    if a[1] == "names" { return names::names() }
    let (mut p, mut t, mut only) = (a[1].clone(), a[2].clone(), None);
    if p == "replay" {
        let Ok(x) = std::fs::read_to_string(&a[2]) else { std::process::exit(3) };
        let get = |k: &str| x.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        p = get("property ");
        t = "quick".into();
        only = Some((get("op "), get("input ").replace("\\\"", "\"").replace("\\\\", "\\")));
    }
    init(&p, &t, only);
    match p.as_str() {
        "C28" => c28::c28(),
        "C29" => c29::c29(),
        "C30" => c30::c30(),
        "C31" => c31::c31(),
        "C34" => c34::c34(),
        _ => std::process::exit(3),
    }
    finish()
}
