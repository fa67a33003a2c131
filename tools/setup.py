#!/usr/bin/env python3
"""Builds the simulator; the images are built by the checks from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.build_core()
