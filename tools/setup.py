"""Nothing to build: the checks are Python and compile /repo themselves. Confirms the tools are there."""
import shutil, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
missing = [t for t in ('clang', 'clang++', 'cvc5') if not shutil.which(t)]
from vf import llir, props
if not os.path.exists(llir.OPT) and not shutil.which(llir.OPT): missing.append(llir.OPT)
print('missing: %s' % missing if missing else 'ok, z3 %s' % z3.get_version_string())
sys.exit(1 if missing else 0)
