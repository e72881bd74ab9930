# Shared by setup.sh and run.sh: builds the explorer and the real code under test.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-04-20 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CI EMULATED ENSURE_NO_PANIC CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
V=/verif; B=$V/build; mkdir -p $B/replays $V/evidence
# content hash of everything a build can see; a mismatch forces a rebuild whatever the timestamps say
src_hash() { (cd /repo && find libm crates Cargo.toml -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.s' \) -print0 | sort -z | xargs -0 sha256sum; cd $V && find shim shim_typed shim_cabi xshim vint tools -type f -not -path '*/target/*' -not -name Cargo.lock -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-32; }
HASH=
# fresh DIR: make cargo forget the crates under test in DIR when the sources differ from what was built there
fresh() {
  [ -n "$HASH" ] || HASH=$(src_hash)
  mkdir -p $1
  if [ "$(cat $1/.srchash.$2 2>/dev/null)" != "$HASH" ]; then
    find $1/$2 -maxdepth 2 -path '*/.fingerprint/*' \( -name 'libm-*' -o -name 'vshim*' -o -name 'libm_*' -o -name 'compiler-builtins-smoke-test*' -o -name 'util-*' -o -name 'vsmoke*' -o -name 'vmac*' -o -name 'vint*' \) -exec rm -rf {} + 2>/dev/null
    rm -f $1/.srchash.$2
  fi
}
done_() { echo $HASH > $1/.srchash.$2; }
# cg DIR PROFILE-DIR CRATE-DIR args...: one cargo build under a lock
cg() { local d=$1 p=$2 c=$3; shift 3; ( flock 9; fresh $d $p; if [ ! -f $d/.srchash.$p ]; then cd $c && cargo build -q --offline --target-dir $d "$@" > $d/log.$p 2>&1 || { echo "build of $c ($p) failed:"; tail -40 $d/log.$p; exit 1; }; done_ $d $p; fi ) 9>$d.lock; }
declare -A SO=([arch]=$B/t-arch/release/libvshim.so [soft]=$B/t-soft/release/libvshim.so [intr]=$B/t-intr/release/libvshim.so [checked]=$B/t-arch/checked/libvshim.so [dev]=$B/t-arch/debug/libvshim.so [softdev]=$B/t-soft/checked/libvshim.so [typed]=$B/t-typed/release/libvshimt.so [cabi]=$B/cabi.so [i686]=$B/x/i686.so [i686c]=$B/x/i686c.so [i586]=$B/x/i586.so [wasm]=$B/x/wasm.vb.so [wasmi]=$B/x/wasmi.vb.so [wasma]=$B/x/wasm.va.so)
need_shim() {
  mkdir -p $B
  case $1 in
    arch) cg $B/t-arch release $V/shim --release --features arch ;;
    checked) cg $B/t-arch checked $V/shim --profile checked --features arch ;;
    dev) cg $B/t-arch debug $V/shim --features arch ;;
    soft) cg $B/t-soft release $V/shim --release --features soft ;;
    softdev) cg $B/t-soft checked $V/shim --profile checked --features soft ;;
    typed) cg $B/t-typed release $V/shim_typed --release --features arch ;;
    cabi) cg $B/t-cabi release $V/shim_cabi --release || return 1; ( flock 9; [ $B/cabi.so -nt $B/t-cabi/release/libvshimc.a ] && [ $B/cabi.so -nt $V/shim_cabi/cabi.cc ] || g++ -O2 -fno-builtin -fPIC -shared -o $B/cabi.so $V/shim_cabi/cabi.cc -Wl,-Bsymbolic -Wl,--no-undefined $B/t-cabi/release/libvshimc.a ) 9>$B/cabi.lock ;;
    wasma) ;; # comes with wasm
    i686|i686c|i586|wasm|wasmi) bash $V/xshim/build.sh $B/x $1 ;;
    intr) cg $B/t-intr release $V/shim --release --features arch,intrinsics ;;
  esac
}
need_vh() { ( flock 9; bash $V/harness/build.sh $B > $B/vh.log 2>&1 || { echo "explorer build failed"; tail -40 $B/vh.log; exit 1; } ) 9>$B/vh.lock; }
need_lits() { python3 $V/mkliterals.py /repo/libm/src $B/literals.txt.$$ && mv $B/literals.txt.$$ $B/literals.txt; }
VINT=$B/t-vint/release/vint
need_vint() { cg $B/t-vint release $V/vint --release; }
need_util() { cg $B/t-util release /repo -p util --no-default-features --features unstable-float --release; }
