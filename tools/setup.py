"""builds the Go SSA dumper and warms its build cache (the checks also build it when it is missing)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine/py"))
import common
print(common.godump_bin())
