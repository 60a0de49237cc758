"""Imports every module that registers suites."""
import glob, importlib, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "suite_*.py"))):
    importlib.import_module(os.path.basename(f)[:-3])
