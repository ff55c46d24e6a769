#!/usr/bin/env python3
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import harness
harness.irdump()
print("ok")
