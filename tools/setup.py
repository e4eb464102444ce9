#!/usr/bin/env python3
"""Builds what every check needs (each check also builds whatever is missing)."""
import os, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import check
os.makedirs(check.B, exist_ok=True)
check.engine()
root = check.sysroot()
for g in check.GROUPS: check.native(g); check.wasm(g, root)
