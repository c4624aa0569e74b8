#!/usr/bin/env python3-vt
"""Nothing to build ahead: checks that the tools and the verifier are usable."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3, cvc5  # noqa: F401
from irv import build  # noqa: F401
import contracts
for t in ('clang', 'opt', 'gcc'):
    subprocess.call(['which', t])
print(len(contracts.load()), 'goals')
