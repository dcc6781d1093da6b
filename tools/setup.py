#!/usr/bin/env python3
"""setup: compile the native parts of /repo once so that checks start from a warm cache (checks rebuild by themselves when it is absent)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import native
print(native.build_native()[0])
