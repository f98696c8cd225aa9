#!/bin/bash
# stab.sh UNITS..: obligations under other solver seeds (all should verify)
mkdir -p /tmp/stab; cd /tmp/stab
for u in ${@:-u07_path u09_ordered u10_headers u01_sigv4 u02_chunked u08_errors u04_gate u05_fs u06_bytes u03_multipart u11_out}; do
  /verif/extract/target/debug/extract /repo /verif/contracts/$u.vc $u.rs >/dev/null || { echo $u extract; continue; }
  for s in 7 14 21; do
    printf "%s seed %s: " $u $s
    timeout 300 verus $u.rs --triggers-mode silent --rlimit 30 --num-threads 2 --smt-option smt.random_seed=$s 2>&1 | grep -A1 "verification res\|^error" | grep -v "^--\|^ *|" | tr '\n' ' ' | cut -c1-300; echo
  done
done
