"""Checks that the interpreter the checks use is there; nothing has to be built."""
import os, subprocess, sys
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(v, "evidence"), exist_ok=True)
sys.exit(subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, pydantic, msgpack"]).returncode)
