"""nothing to build: checks that both interpreters and the code under test are usable"""
import subprocess
import sys
a = subprocess.run(['python3-vt', '-c', 'import z3, numpy; print("z3", z3.get_version_string())'])
b = subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, tqdm; print("python ok")'])
sys.exit(a.returncode or b.returncode)
