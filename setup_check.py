"""Nothing to build: confirms the interpreter, z3 and the libraries the checks use are there."""
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, sympy, numpy, scipy
s = z3.Solver()
x = z3.Real('x')
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print('z3', z3.get_version_string(), 'sympy', sympy.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
