"""Nothing to build ahead of time: checks that the tools the checks use are present."""
import shutil, sys
for t in ('clang', 'gcc'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
import z3
print('z3', z3.get_version_string())
