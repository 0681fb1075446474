#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: run one property's check (tier and seed from VERIF_TIER / VERIF_SEED)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import vlib
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module("checks." + pid.lower())
vlib.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking"))
