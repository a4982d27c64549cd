#!/usr/bin/env python3
"""Builds the fact extractor."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import build_tool
print(build_tool())
