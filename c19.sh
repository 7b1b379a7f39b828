# Sourced by check.sh for C19: the instrumented builds side by side, then the workloads.
build_asan >"$HERE/replays/.asan.out" 2>&1 & A=$!
build_tsan >"$HERE/replays/.tsan.out" 2>&1 & T=$!
build_msan >"$HERE/replays/.msan.out" 2>&1 & M=$!
build_miri & I=$!
ok=0
wait $A || { ok=1; cat "$HERE/replays/.asan.out"; }
wait $T || { ok=1; cat "$HERE/replays/.tsan.out"; }
wait $M || { ok=1; cat "$HERE/replays/.msan.out"; }
wait $I
[ $ok = 0 ] || exit 3
EV="$HERE/evidence/C19.json"
RP="$HERE/replays"
if [ -n "${fam:-}" ]; then EV=-; RP="$HERE/replays/again"; fi
timeout -k 5 3500 python3 "$HERE/c19.py" "$HERE" "$TIER" "$SEED" "$EV" "$RP" "${fam:-*}"
rc=$?
case $rc in
    0 | 1 | 2) exit $rc ;;
    *) echo "ERROR no verdict (exit $rc)"; exit 3 ;;
esac
