#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.registry import REGISTRY
sys.exit(core.main(REGISTRY, sys.argv))
