#!/usr/bin/env python3
"""Builds the simulator from the committed files and /repo's tree (checks rebuild it themselves when the tree differs)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(check.get_exe())
