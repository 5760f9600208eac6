"""Builds what the checks share (the VM library from /repo's sources)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ama
print(ama.build_vm())
