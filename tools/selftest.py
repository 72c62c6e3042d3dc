"""setup: the tools the checks need are present (nothing has to be built beforehand)."""
import shutil, sys, os
import z3
for t in ('clang++-18', 'c++filt'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
if not os.path.exists('/usr/lib/llvm-18/bin/opt'):
    sys.exit('missing opt')
s = z3.Solver()
x = z3.BitVec('x', 8)
s.add(x + 1 == 0)
assert s.check() == z3.sat
print('ok')
