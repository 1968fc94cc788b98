#!/bin/bash
# Writes harness/testkeys.inc: fixed RSA keys (made once with openssl; committed).
out="$(dirname "$0")/../harness/testkeys.inc"; : > "$out"
emit() { echo "/* $1 */ R\"PEM("; cat; echo ')PEM",'; }
gen() { openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:$1 -pkeyopt rsa_keygen_pubexp:$2 2>/dev/null | openssl rsa -traditional 2>/dev/null; }
{ echo "static const char* const TEST_SK_RAW[] = {"
for e in 65537 65537 65537 65537 3 17 257 65539 4294967297 18446744073709551557; do gen 2048 $e | emit "2048 e=$e"; done
echo "};"; echo "static const char* const OTHER_SIZE_SK_RAW[] = {"
for b in 512 1024 1536 2040 2046 2047 2049 2050 2056 3072 4096; do gen $b 65537 | emit "$b"; done
echo "};"; } >> "$out"
