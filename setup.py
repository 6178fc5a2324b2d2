#!/usr/bin/env python3
"""Builds the framework's own tools (offline)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vx import extract
print(extract.tool_build())
