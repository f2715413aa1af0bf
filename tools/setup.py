#!/usr/bin/env python3
"""Nothing is installed or prebuilt (every check compiles its harness from /repo's current tree);
this only confirms that the tools the checks use are there."""
import os, shutil, subprocess, sys
missing = [t for t in ('g++', 'valgrind') if not shutil.which(t)]
missing += [f for f in ('/usr/include/eigen3/Eigen/Core', '/usr/include/glog/logging.h') if not os.path.exists(f)]
if missing:
    sys.exit('missing: ' + ', '.join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'), exist_ok=True)
print(subprocess.check_output(['g++', '--version'], text=True).splitlines()[0])
