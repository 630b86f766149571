#!/bin/bash
# Determinism: N seeds of every property, run twice with different numbers of workers, must give the same event hashes.
cd /verif/sim
for c in ${P:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}; do n=$1; [ $c = C21 ] && n=$(($1/8)); s=$(date +%s.%N); ./target/debug/bspsim hashes $c $n 8 >/tmp/h8 2>/dev/null; e=$(date +%s.%N); ./target/debug/bspsim hashes $c $n 5 >/tmp/h5 2>/dev/null; echo $c $(echo "$e-$s"|bc) diff $(diff /tmp/h8 /tmp/h5 | grep -c '^<') $(diff /tmp/h8 /tmp/h5 | grep '^<'|cut -c1-60|tr '\n' ' ');  grep -v ' ok ' /tmp/h8 | cut -c1-300 | sort -u -k6,6 | head -5; done
