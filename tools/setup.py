#!/usr/bin/env python3
"""Builds the harness and the commands of the project."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print('built in %.1f s' % vlib.build(True))
