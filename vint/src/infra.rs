//! Exploration, reporting and evidence shared by the checks of this binary.
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub thorough: bool,
    pub t0: Instant,
    pub only: Option<(String, String)>, // replay: report this (operation, input) alone
    found: AtomicU64,
    states: AtomicU64,
    calls: AtomicU64,
    validated: AtomicU64,
    stop: AtomicBool,
    st: Mutex<St>,
}
#[derive(Default)]
struct St {
    per_op: BTreeMap<String, u64>,
    seen: BTreeMap<String, u64>,
    notes: Vec<String>,
    samples: Vec<String>,
    known_hit: Vec<String>,
    known: Vec<(String, String)>,
}
static G: OnceLock<Ctx> = OnceLock::new();
pub fn g() -> &'static Ctx {
    G.get().unwrap()
}
pub fn init(prop: &str, tier: &str, only: Option<(String, String)>) {
    let mut st = St::default();
    if let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in t.lines().filter(|l| l.starts_with('{') && field(l, "property") == prop) {
            st.known.push((field(l, "op"), field(l, "text")));
        }
    }
    let c = Ctx { prop: prop.into(), tier: tier.into(), thorough: tier == "thorough", t0: Instant::now(), only, found: 0.into(), states: 0.into(), calls: 0.into(), validated: 0.into(), stop: false.into(), st: Mutex::new(st) };
    let _ = G.set(c);
    std::panic::set_hook(Box::new(|_| {}));
}
/// value of a string field of a flat JSON object
fn field(l: &str, k: &str) -> String {
    let pat = format!("\"{k}\":");
    let Some(i) = l.find(&pat) else { return String::new() };
    let r = l[i + pat.len()..].trim_start();
    let Some(r) = r.strip_prefix('"') else { return String::new() };
    let mut o = String::new();
    let mut it = r.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => o.push(it.next().unwrap_or('\\')),
            c => o.push(c),
        }
    }
    o
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' | '\\' => { o.push('\\'); o.push(c) }
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
pub fn note(s: impl Into<String>) { g().st.lock().unwrap().notes.push(s.into()); }
pub fn sample(s: impl Into<String>) { let mut st = g().st.lock().unwrap(); if st.samples.len() < 60 { st.samples.push(s.into()) } }
pub fn stopped() -> bool { g().stop.load(Relaxed) }
/// `n` states of `op` explored, each with `c` executions of the real code, all compared
pub fn count(op: &str, n: u64, c: u64) {
    g().states.fetch_add(n, Relaxed);
    g().calls.fetch_add(n * c, Relaxed);
    g().validated.fetch_add(n * c, Relaxed);
    *g().st.lock().unwrap().per_op.entry(op.into()).or_insert(0) += n;
}
pub fn violation(op: &str, input: &str, observed: &str, expected: &str) {
    let c = g();
    if let Some((o, i)) = &c.only {
        if o == op && i == input {
            println!("{op}({input}) = {observed}\nexpected {expected}");
            std::process::exit(1);
        }
        return;
    }
    let mut st = c.st.lock().unwrap();
    let st = &mut *st;
    for (o, t) in &st.known {
        if o == op && t == input {
            let l = format!("KNOWN-FINDING: property={} {op}({input})", c.prop);
            if !st.known_hit.contains(&l) { println!("{l}"); st.known_hit.push(l); }
            return;
        }
    }
    let k = st.seen.entry(op.into()).or_insert(0);
    *k += 1;
    let n = c.found.fetch_add(1, Relaxed);
    if n > 400 { c.stop.store(true, Relaxed) }
    if *k > 3 { return }
    let path = format!("/verif/build/replays/{}-{}-{}.txt", c.prop, op.replace(|x: char| !x.is_ascii_alphanumeric(), "_"), *k);
    let _ = std::fs::create_dir_all("/verif/build/replays");
    let _ = std::fs::write(&path, format!("engine vint\nproperty {}\nop {op}\ninput {}\nobserved {observed}\nexpected {expected}\n", c.prop, esc(input)));
    println!("VIOLATION property={} replay={path}", c.prop);
    println!("violation {op}({input}) = {observed}, expected {expected}");
    let _ = std::io::stdout().flush();
}
/// run `f`; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
        format!("panic: {}", m.replace('\n', " "))
    })
}
/// every index in 0..n, on all cores; a work item that takes longer than two minutes is a violation
pub fn par(op: &str, n: u64, f: impl Fn(u64) + Sync) {
    let next = AtomicU64::new(0);
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let beat: Vec<(AtomicU64, AtomicU64)> = (0..nt).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let live = AtomicU64::new(nt as u64);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (next, f, beat, live) = (&next, &f, &beat, &live);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || stopped() { break }
                    beat[t].1.store(g().t0.elapsed().as_secs(), Relaxed);
                    beat[t].0.store(i, Relaxed);
                    if let Err(m) = guard(|| f(i)) {
                        violation(op, &format!("work item {i}"), &m, "no panic");
                    }
                }
                beat[t].0.store(u64::MAX, Relaxed);
                live.fetch_sub(1, Relaxed);
            }).unwrap();
        }
        let (beat, live) = (&beat, &live);
        s.spawn(move || {
            while live.load(Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                let now = g().t0.elapsed().as_secs();
                for b in beat {
                    let i = b.0.load(Relaxed);
                    if i != u64::MAX && now > b.1.load(Relaxed) + 120 {
                        violation(op, &format!("work item {i}"), "no progress for 120 s", "termination");
                        finish();
                    }
                }
            }
        });
    });
}
pub fn finish() -> ! {
    let c = g();
    if c.only.is_some() { println!("the recorded state no longer violates the property"); std::process::exit(0) }
    let st = c.st.lock().unwrap();
    let v = c.found.load(Relaxed);
    let wall = c.t0.elapsed().as_secs_f64();
    let arr = |v: &Vec<String>| v.iter().map(|s| format!("   \"{}\"", esc(s))).collect::<Vec<_>>().join(",\n");
    let per = st.per_op.iter().map(|(k, n)| format!("\"{}\": {n}", esc(k))).collect::<Vec<_>>().join(", ");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let j = format!("{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"states_meaning\": \"distinct input states enumerated\",\n  \"transitions_meaning\": \"executions of the real compiled implementation\",\n  \"traces_validated_meaning\": \"executions whose result was compared with the reference model\",\n  \"states_per_operation\": {{{per}}},\n  \"spaces\": [\n{}\n  ],\n  \"samples\": [\n{}\n  ]\n }},\n \"assumptions\": [\"the reference model in /verif/vint is right\", \"host compiler and CPU are correct\"],\n \"wall_s\": {wall:.2},\n \"violations\": {v}\n}}\n",
        c.prop, c.tier, c.states.load(Relaxed), c.calls.load(Relaxed), c.validated.load(Relaxed), !stopped(), arr(&st.notes), arr(&st.samples));
    let _ = std::fs::create_dir_all("/verif/evidence");
    if std::fs::write(format!("/verif/evidence/{}.json", c.prop), j).is_err() { std::process::exit(3) }
    println!("{} {}: states={} transitions={} violations={v} wall={wall:.1}s", c.prop, c.tier, c.states.load(Relaxed), c.calls.load(Relaxed));
    std::process::exit(if v > 0 { 1 } else { 0 })
}
/// executions made besides those counted with their states
pub fn calls(c: u64) { g().calls.fetch_add(c, Relaxed); g().validated.fetch_add(c, Relaxed); }
