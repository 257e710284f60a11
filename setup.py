#!/usr/bin/env python3
"""Checks that the tools are there and that the specifications parse. Every check builds its drivers itself."""
import glob, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(root, 'lib'))
sys.dont_write_bytecode = True
from vh import JARS
for tool in ('g++', 'java'):
    if not shutil.which(tool):
        sys.exit(f'{tool} is missing')
tmp = tempfile.mkdtemp()
try:
    for f in sorted(glob.glob(os.path.join(root, 'spec', '*.tla'))):
        r = subprocess.run(['java', '-Djava.io.tmpdir=' + tmp, '-cp', JARS, 'tla2sany.SANY', f], capture_output=True, text=True,
                           cwd=os.path.join(root, 'spec'))
        if r.returncode:
            sys.exit(f'{f} does not parse:\n{r.stdout[-2000:]}')
finally:
    shutil.rmtree(tmp)
print('setup: specifications parse')
