#!/usr/bin/env python3
"""Builds everything the checks need from /repo's current tree (they rebuild when it changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
for hv in sorted({(h, v) for s in PROPS.values() for h, v, _ in s["harness"]}):
    print(B.build(*hv))
