#!/usr/bin/env python3
"""setup_cmd: builds the fact extractor and checks that it runs (offline)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import facts
print(facts.driver())
print(facts.dump())
