#!/usr/bin/env python3
"""Regenerates drivers/vpt.iop and specs/IopSchema.tla from checks/iopschema.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import iopschema
open(V + '/drivers/vpt.iop', 'w').write(iopschema.iop_text())
open(V + '/specs/IopSchema.tla', 'w').write(iopschema.schema_tla())
