#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import harness
harness.run_check(sys.argv[1])
