#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "z3") if not shutil.which(t)]
sys.exit("missing tools: " + ", ".join(missing) if missing else 0)
