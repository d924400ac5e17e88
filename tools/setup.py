"""Nothing to build: checks that the tools the framework needs are there."""
import shutil, sys
import z3, sympy
assert shutil.which('cvc5') and shutil.which('python3-vt')
print('z3', z3.get_version_string(), 'sympy', sympy.__version__)
