#!/usr/bin/env python3
"""Build the conformance harness once (every check builds what it needs again)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
print("harness built")
