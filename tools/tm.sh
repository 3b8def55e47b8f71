# tm.sh ID...: run checks, print tails and times
cd /verif; for p in "$@"; do s=$(date +%s); VERIF_TIER=${TIER:-quick} VERIF_SEED=${SEED:-1} bin/check $p > /tmp/chk-$p.log 2>&1; rc=$?; echo "== $p rc $rc $(( $(date +%s)-s ))s"; grep -E "VIOLATION|KNOWN|inconcl|no verdict" -A3 /tmp/chk-$p.log | cut -c1-400 | head -${MAXL:-12}; done
