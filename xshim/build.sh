#!/bin/bash
# build.sh OUT TARGET...    builds the worker and its proxy shim for each target from /repo's current tree
# targets: i686 i586 i686c (overflow checks) wasm wasmi (unstable-intrinsics)
. /verif/lib.sh
O=$1; shift; mkdir -p $O
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
S=$(rustc --print sysroot)/lib/rustlib/src/rust/library
X=(-q --offline -Zbuild-std=core --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$S/vendor\"" --target-dir $O/t)
one() {
  local t=$1 trip prof=release feat= src=$V/xshim
  case $t in i686) trip=i686-unknown-linux-gnu feat=f16f128 ;; i686c) trip=i686-unknown-linux-gnu prof=checked feat=f16f128 ;; i586) trip=i586-unknown-linux-gnu ;; wasm) trip=wasm32-unknown-unknown feat=archw ;; wasmi) trip=wasm32-unknown-unknown feat=intrinsics ;; esac
  local d=$O/$t; mkdir -p $d; X[-1]=$d/t
  if [ "$(cat $d/.hash 2>/dev/null)" = $HASH ]; then return 0; fi
  rm -f $d/.hash; find $d/t -maxdepth 4 \( -name 'libm-*' -o -name 'vxshim-*' -o -path '*/build/libm' -o -path '*/build/vxshim' \) -exec rm -rf {} + 2>/dev/null
  if [ $t = wasmi ]; then
    # the toolchain that has the sources of core renamed two intrinsics; build a copy with the new name
    rm -rf $d/src; mkdir -p $d/src/xshim $d/src/shim; cp -r /repo/libm $d/src/libm; cp -r $src/src $src/Cargo.toml $d/src/xshim/; cp -r $V/shim/src $d/src/shim/
    sed -i 's/core::intrinsics::\$fma_intrinsic/core::intrinsics::fma/' $d/src/libm/src/math/support/float_traits.rs
    sed -i 's|path = "/repo/libm"|path = "../libm"|' $d/src/xshim/Cargo.toml; echo '[workspace]' >> $d/src/libm/Cargo.toml
    (cd $d/src/xshim && cargo rustc "${X[@]}" --profile $prof --target $trip --features $feat --crate-type cdylib > $d/log 2>&1) && cp $d/t/$trip/$prof/vxshim.wasm $d/worker || rm -f $d/worker
    rm -rf $d/src
  fi
  if [[ $t = wasm* ]]; then
    [ $t = wasmi ] || (cd $src && cargo rustc "${X[@]}" --profile $prof --target $trip --features $feat --crate-type cdylib > $d/log 2>&1) || { 
      (cd $src && cargo rustc "${X[@]}" --profile $prof --target $trip --crate-type cdylib > $d/log 2>&1) || { echo "build for $t failed"; tail -40 $d/log; return 1; }; }
    [ $t = wasmi ] || cp $d/t/$trip/$prof/vxshim.wasm $d/worker
    : > $d/names; [ -f $d/worker ] && node -e 'const m=new WebAssembly.Module(require("fs").readFileSync(process.argv[1]));console.log(WebAssembly.Module.exports(m).map(e=>e.name).filter(n=>/^v[ab]_/.test(n)).join("\n"))' $d/worker > $d/names
    for p in vb va; do g++ -O2 -std=c++17 -fPIC -shared -o $O/$t.$p.so $src/proxy.cc -DWORKER="\"$d/worker\"" -DNAMES="\"$d/names\"" -DSCRIPT="\"$src/worker.js\"" -DPREFIX="\"${p}_\"" || return 1; done
  else
    (cd $src && cargo rustc "${X[@]}" --profile $prof --target $trip ${feat:+--features $feat} --crate-type staticlib > $d/log 2>&1) || { echo "build for $t failed"; tail -40 $d/log; return 1; }
    nm $d/t/$trip/$prof/libvxshim.a 2>/dev/null | sed -n 's/^[0-9a-f]* T \(vb_.*\)$/\1/p' | sort -u > $d/names
    sed 's/.*/X(&)/' $d/names > $d/tab.inc
    gcc -m32 -march=i586 -O2 -ffreestanding -fno-builtin -fno-tree-loop-distribute-patterns -fno-stack-protector -nostdlib -static -I$d -o $d/worker $src/worker.c $d/t/$trip/$prof/libvxshim.a > $d/ld.log 2>&1 || { echo "linking for $t failed"; tail -20 $d/ld.log; return 1; }
    g++ -O2 -std=c++17 -fPIC -shared -o $O/$t.so $src/proxy.cc -DWORKER="\"$d/worker\"" -DNAMES="\"$d/names\"" || return 1
  fi
  echo $HASH > $d/.hash
}
HASH=$(src_hash)$(cat $V/xshim/*.* $V/xshim/src/* $V/harness/ops.inc $V/shim/src/* | sha256sum | cut -c1-16)
( flock 9; for t in "$@"; do one $t & done; r=0; for j in $(jobs -p); do wait $j || r=1; done; exit $r ) 9>$O/lock.$1
