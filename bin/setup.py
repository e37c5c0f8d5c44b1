#!/usr/bin/env python3
"""Builds the harness (with and without the small batches) and parses the specifications."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx
for hook in (False, True):
    fx.build(hook)
print("ready")
