#!/usr/bin/env python3
"""python3-vt check.py P01 [-v] [-k substring]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.check import main

if __name__ == '__main__':
    sys.exit(main())
