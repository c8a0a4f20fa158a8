"""setup_cmd: compile the TLC override and check that every specification parses."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

print("compiled", vlib.classes_dir())
