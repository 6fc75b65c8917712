"""Builds the harness once, so that the checks find their dependencies compiled."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'engine'))
import build
for c in ('std', 'nostd', 'std-rel', 'unwind'):
    print(c, build.cargo(c))
