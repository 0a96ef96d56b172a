#!/usr/bin/env python3
"""Builds the engine (from engine/) and a first harness module and replay binary against /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(check.build(("small", "full")))
