#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing is kept: every check builds what it needs."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, 'a.cpp')
    open(src, 'w').write('#include <zlib.h>\n#include <iostream>\nint main () { std::cout << zlibVersion () << std::endl; }\n')
    r = subprocess.call(['g++', '-std=c++20', '-fsanitize=address', '-fopenmp', src, '-o', d + '/a', '-lz'])
    if r == 0:
        r = subprocess.call([d + '/a'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
sys.exit(r)
