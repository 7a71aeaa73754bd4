#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's working tree); only verify that the tools are there."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
for d in ('evidence', 'replays', '.build'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, 't.cpp')
    open(src, 'w').write('#include <boost/version.hpp>\nint main() { return 0; }\n')
    for cxx in ('g++', 'clang++'):
        r = subprocess.run([cxx, '-std=gnu++17', '-fsanitize=address,undefined', src, '-o', os.path.join(d, 't')])
        if r.returncode:
            print('warning: %s does not work here' % cxx)
            if cxx == 'g++':
                sys.exit(1)
print('ok')
