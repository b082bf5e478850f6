"""sanity check of the tool chain: nothing to build, the checks read the sources directly"""
import importlib
import os
import shutil
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
for t in ('g++', 'cvc5'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
if not (shutil.which('clang++-18') or shutil.which('clang++')):
    sys.exit('missing clang++')
for m in ('irparse', 'symex', 'bv2int', 'narrow', 'wide', 'solve', 'harness'):
    importlib.import_module(m)
print('ok')
