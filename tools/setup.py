#!/usr/bin/env python3
"""Confirm that the interpreter and the code under test are in place."""

import os
import pathlib
import subprocess
import sys

repo = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
code = "import goats, numpy, netCDF4, scipy; print(goats.__path__[0])"
env = dict(os.environ, PYTHONPATH=str(repo / 'src'), PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', code], env=env))
