#!/usr/bin/env python3
"""python3 check.py <property id> : decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import importlib

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    mod.run(pid)
