#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.path.insert(0, os.path.join(here, 'checks'))
import vp
prop = sys.argv[1]
mod = importlib.import_module(prop.lower())
vp.main(prop, mod.check, getattr(mod, 'LEVEL', 'model_checking'))
