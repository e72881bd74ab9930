#!/bin/bash
# run.sh <property> <quick|thorough>       decide one property on /repo's current working tree
# run.sh replay <file>                     re-execute one recorded violating state
. /verif/lib.sh
cd $V
P=$1; T=${2:-${VERIF_TIER:-quick}}
if [ "$P" = replay ]; then
  F=$2
  if [ "$(head -1 $F)" = "engine vint" ]; then need_vint || exit 3; exec $VINT replay $F; fi
  if [[ "$(head -1 $F)" == "engine c"* ]]; then N=$(head -1 $F); exec python3 checks/${N#engine }.py quick "$(sed -n 's/^case //p' $F)"; fi
  C=$(sed -n 's/^config //p' $F); [ -n "${SO[$C]}" ] || C=arch
  need_vh && need_shim $C || exit 3
  exec $B/vh replay $F $C=${SO[$C]}
fi
CF="arch soft intr"
case $P in
  C1[0-9]|C20|C24) CF="arch soft" ;;
  C26) CF="arch typed" ;;
  C27) CF="arch cabi" ;;
  C22) CF="arch"; [ $T = thorough ] && CF="arch soft" ;;
  C23) CF="checked" ;;
  C25) CF="arch soft intr checked"; [ $T = thorough ] && CF="$CF dev softdev" ;;
  C35) CF="arch i686 i586 wasm wasmi wasma"; [ $T = thorough ] && CF="$CF i686c" ;;
esac
[ -f $V/checks/$P.sh ] && exec bash $V/checks/$P.sh $T
case $P in C28|C29|C3[0-4]) need_vint || exit 3; exec $VINT $P $T ;; esac
pids=(); need_vh & pids+=($!); need_lits & pids+=($!)
for c in $CF; do need_shim $c & pids+=($!); done
for p in "${pids[@]}"; do wait $p || exit 3; done
A=(); for c in $CF; do A+=($c=${SO[$c]}); done
exec $B/vh $P $T "${A[@]}"
