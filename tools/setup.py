#!/usr/bin/env python3
"""build the MIR driver"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.WORK, exist_ok=True)
print(check.build_driver())
