#!/usr/bin/env python3
"""check.py <property id>: decide one property on the current /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common

MODULES = {}
for i in range(1, 9):
    MODULES["C%02d" % i] = "conc"

for i in ("C09", "C10", "C11", "C14"):
    MODULES[i] = "seq"

for i, m in (("C12", "build"), ("C13", "build"), ("C15", "rc"), ("C16", "serdes"), ("C17", "serdes")):
    MODULES[i] = m

for i in ("C18", "C19", "C20"):
    MODULES[i] = "attr"

for i in ("C21", "C22"):
    MODULES[i] = "items"

MODULES["C23"] = "feats"
MODULES["C24"] = "forms"

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        mod = __import__(MODULES[prop])
        sys.exit(mod.run(prop))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
