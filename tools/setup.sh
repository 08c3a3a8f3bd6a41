#!/bin/bash
# builds the extractor once, offline; every check builds it again if it has to
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, "vf")
import os, proof
os.makedirs(proof.BUILD, exist_ok=True)
print(proof.build_vx())
P
