#!/usr/bin/env python3
"""Warms the build caches (each check also builds by itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import common
try:
    common.build_driver()
except common.CheckError as e:
    print(e)
    sys.exit(1)
