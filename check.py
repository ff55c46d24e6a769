#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
import harness
rc = [2]
def go():
    rc[0] = harness.main(sys.argv[1:])
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
