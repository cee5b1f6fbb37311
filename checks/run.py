#!/usr/bin/env python3
"""checks/run.py <property>: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
MODULES = {"C01": "blocksteps", "C02": "blocksteps", "C03": "blocksteps", "C04": "sinks", "C05": "ledger", "C06": "tree", "C07": "tree", "C08": "bounds", "C09": "output", "C11": "output", "C12": "output", "C13": "params", "C14": "session", "C15": "browse"}
prop = sys.argv[1]
m = importlib.import_module(MODULES[prop])
vlib.main(prop, m.body(prop), getattr(m, "LEVEL", {}).get(prop, "model_checking"))
