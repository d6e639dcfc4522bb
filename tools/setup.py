#!/usr/bin/env python3
"""setup_cmd: nothing to build ahead (each check builds /repo itself); verifies the tools are there."""
import os
import subprocess
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, pandas, cloudpickle, psutil"], capture_output=True, text=True)
print(r.stderr)
sys.exit(r.returncode)
