#!/usr/bin/env python3
import sys, vplib
from checks import CHECKS
if __name__ == "__main__":
    sys.exit(vplib.main(sys.argv[1], CHECKS, sys.argv[2] if len(sys.argv) > 2 else vplib.TIER))
