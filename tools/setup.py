#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs from /repo itself."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import run
for c in (['java', '-version'], ['cargo', '--version']):
    r = subprocess.run(c, env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/')
    print(r.stdout.decode().splitlines()[0])
    if r.returncode:
        sys.exit(1)
assert os.path.exists('/opt/veriftools/tla/tla2tools.jar')
