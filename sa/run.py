#!/usr/bin/env python3
"""run.py ID [ID...]: runs the checks (VERIF_TIER selects the tier)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
rc = 0
for pid in sys.argv[1:]:
    m = importlib.import_module(pid.lower())
    r = core.main(pid, m.run, os.environ.get('VERIF_TIER', 'quick'))
    sys.stdout.flush()
    rc = max(rc, r)
sys.exit(rc)
