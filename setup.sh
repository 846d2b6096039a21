#!/bin/bash
# Builds the symbolic executor and compiles the repository to bitcode once (both are rebuilt or reused by content hash in each check).
cd "$(dirname "$0")" || exit 1
bash engine/build.sh build || exit 1
python3 - <<'P'
from vlib import build as b
S = b.Sources()
b.compile_tus(S, S.tus)
b.compile_tus(S, S.tus, native=True)
P
