// The configuration the compiler-builtins crate of the repository uses.
#[path = "/repo/libm/configure.rs"]
mod configure;
fn main() {
    println!("cargo:rerun-if-changed=/repo/libm/configure.rs");
    let cfg = configure::Config::from_env();
    configure::emit_libm_config(&cfg);
}
