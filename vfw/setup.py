#!/usr/bin/env python3
"""Nothing has to be built in advance; checks that the tools the explorer needs are there."""
import shutil
import subprocess
import sys

if not shutil.which("gcc"):
    sys.exit("gcc is missing")
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, torch, piq, skimage, nibabel, matplotlib"], check=True)
