#!/usr/bin/env python3
"""Builds both harnesses, so that the checks start from a warm cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.build()
vf.build(True)
