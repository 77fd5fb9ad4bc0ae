"""
Self-test of the engine (setup_cmd): the functions of harness/SELF.py on all texts within their bounds, compared with
the interpreter of the repository on a model of every path.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), 'SELF', '--tier', 'quick', '--no-evidence', '-v'], cwd=HERE, stdout=subprocess.PIPE, universal_newlines=True)
print(p.stdout)
# paths that do not cover all texts
lost = 'complete=True exhaustive=False' in p.stdout
sys.exit(1 if p.returncode or lost or 'mismatch' in p.stdout or 'engine:' in p.stdout else 0)
