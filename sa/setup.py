#!/usr/bin/env python3
"""build the IR dumper once (checks build it on demand if it is missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.tool())
