"""setup_cmd: the tools the checks need answer."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'dv'))
import engine, llvmc, models, smt, build  # noqa
import z3
x = z3.BitVec('x', 8)
s = z3.Solver()
s.add(x + 1 == 0, x != 255)
assert s.check() == z3.unsat
build.run(['clang++', '--version'])
build.run([build.LLVM + 'llvm-link', '--version'])
build.run([build.LLVM + 'opt', '--version'])
print('ok')
