#!/usr/bin/env python3
"""Nothing is built: check that the frontends work."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'kmcstat'))
sys.setrecursionlimit(20000)
import engine
for mpi in (False, True):
    W = engine.World(mpi=mpi)
    print('%d C++ functions, %d Python functions' % (len(W.cxx.fns), len(W.py.fns)))
