#!/usr/bin/env python3
"""Builds the harness and the extractor from committed files (offline)."""
import sys, importlib.util, pathlib
sys.argv = ["setup"]
s = importlib.util.spec_from_file_location("check", pathlib.Path(__file__).resolve().parent / "check.py")
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
m.BUILD.mkdir(exist_ok=True); m.EVID.mkdir(exist_ok=True)
a, ao = m.build_extractor(); b, bo = m.build_harness()
print(ao[-500:], bo[-500:])
sys.exit(0 if a and b else 1)
