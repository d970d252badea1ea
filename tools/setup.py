#!/usr/bin/env python3
"""Build the harness once and check that every specification parses."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

try:
    print(vlib.build())
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
