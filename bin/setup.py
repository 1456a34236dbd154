#!/usr/bin/env python3
"""Builds the harness variants offline, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for v in ("h", "n"):
    print("built", check.build(v))
