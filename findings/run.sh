#!/bin/bash
# Runs every demonstration of a finding against /repo (prints which fail).
cd "$(dirname "$0")"; t=$(mktemp -d); rc=0
for f in D*.cpp; do for std in 11 17; do for p in "" "-DUPD_PLATFORM_ENDIANESS=LITTLE -DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"; do
  if g++-11 -std=c++$std $p -g -fsanitize=address,undefined -fno-sanitize-recover=all -I/repo/include -o $t/a $f 2>$t/err && $t/a >$t/out 2>&1; then echo "ok   $f $std ${p:+platform}"; else rc=1; echo "FAIL $f $std ${p:+platform} $(cat $t/out | head -3| tr '\n' ' '; grep -m1 error $t/err)"; fi; : >$t/out
done; done; done
for f in D*.py; do [ -e $f ] && { /opt/vp/venv/bin/python -B $f >$t/out 2>&1 && echo "ok   $f" || { rc=1; echo "FAIL $f $(tail -1 $t/out)"; }; }; done
/bin/rm -rf "$t"; exit $rc
