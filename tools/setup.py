#!/usr/bin/env python3
"""setup_cmd: builds podo and checks that the specifications parse"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pv import proj
print(proj.build())
