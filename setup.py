#!/usr/bin/env python3
"""Nothing to build: the machinery is Python and a Node (V8) oracle.  Checks that both are there and that /repo imports."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import ops, wb, pw, v8  # noqa
assert len(ops.OPS) == 437
subprocess.run(['node', '--version'], check=True)
print('setup ok')
