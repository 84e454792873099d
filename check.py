#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, props

if __name__ == "__main__":
    p = sys.argv[1]
    f, level = props.CHECKS[p]
    core.run(p, level, f)
