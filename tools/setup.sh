#!/bin/bash
# builds the extractor, the harness and the dependencies the typed dump needs
cd "$(dirname "$0")/.." && exec python3 - <<'P'
import sys; sys.path.insert(0, "tools")
import check, os
os.makedirs(check.C, exist_ok=True)
print("vx", check.build_vx()); rh = check.repo_hash(); print("hx", check.build_hx(rh)); print("thir", check.dump_thir(rh))
print("extracted", check.build_run(rh, check.build_vx()[0], check.dump_thir(rh)[0]))
P
