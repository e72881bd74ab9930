#!/bin/bash
# Builds the explorer and every shim from the committed files; run once, offline.
. /verif/lib.sh
need_vh & need_shim arch & need_shim soft & need_shim intr &
fail=0; for j in $(jobs -p); do wait $j || fail=1; done
need_shim checked & need_shim typed & need_shim cabi & need_vint & for j in $(jobs -p); do wait $j || fail=1; done; bash /verif/xshim/build.sh $B/x i686 i586 wasm wasmi & need_util & for j in $(jobs -p); do wait $j || fail=1; done; need_lits || fail=1
exit $fail
