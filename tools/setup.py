#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")); sys.dont_write_bytecode = True
from vf import core
print("analyser:", core.engine())
