#!/usr/bin/env python3
"""The checks of /verif: python3 tools/check.py C10 (tier and seed from VERIF_TIER and VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
import containers, iochecks, concurrency, coroutines, values

CHECKS = {}
for m in (containers, iochecks, concurrency, coroutines, values):
    CHECKS.update({n: f for n, f in vars(m).items() if n[0] == "C" and n[1:].isdigit()})

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(vk.setup(CHECKS))
    else:
        vk.main(CHECKS)
