#!/usr/bin/env python3
"""Builds the compiler from /repo once so that the checks find it cached."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
main(lambda: print(build_compiler()))
