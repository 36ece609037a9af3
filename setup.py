#!/usr/bin/env python3
"""Builds the harness and the TLC module override once (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
core.Ctx("setup", "quick", 1).build()
