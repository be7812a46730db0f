#!/usr/bin/env python3
"""setup_cmd: nothing to build ahead of time; makes the output folders and reports what the checks will run against."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
sys.path.insert(0, os.path.join(V, "lib"))
import build  # noqa: E402

t = build.target()
print(t.info)
t.close()
