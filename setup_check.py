#!/usr/bin/env python3
"""setup: nothing to build; verifies that the verification interpreter and solver are there"""
import os, subprocess, sys
VT = '/opt/veriftools/pyvenv/bin/python'
sys.exit(subprocess.call([VT, '-c', 'import z3; s=z3.Solver(); x=z3.Int("x"); s.add(x>1,x<1); assert s.check()==z3.unsat; print("z3", z3.get_version_string())']))
