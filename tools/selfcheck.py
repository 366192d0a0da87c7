"""setup_cmd: the tools this framework needs are present."""
import os
import subprocess
import sys
import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import engine, api  # noqa: F401
x = z3.BitVec('x', 8)
s = z3.Solver()
s.add(x > 3)
assert s.check() == z3.sat
assert subprocess.call(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "/repo/src"); import avb']) == 0
print('ok', z3.get_version_string())
