#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
sys.setrecursionlimit(100000)
import threading

import driver
import checks

rc = [3]


def go():
    try:
        driver.main(checks.CHECKS)
    except SystemExit as x:
        rc[0] = x.code or 0


threading.stack_size(1 << 29)
t = threading.Thread(target=go)
t.start()
t.join()
sys.exit(rc[0])
