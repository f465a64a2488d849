import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import psxlib as P
from registry import CHECKS
P.build_engine()
for s in sorted(set(e[0] for c in CHECKS.values() for e in c["quick"] + c["thorough"])):
    P.build_bc([s]); P.build_native([s])
print("ready")
