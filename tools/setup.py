#!/usr/bin/env python3
"""Setup: checks that the tools the verifier needs are there and byte-compiles it (nothing to build)."""
import compileall, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3, cvc5  # noqa
for t in ('clang++-18', 'opt-18', 'llvm-dis-18', 'llvm-nm-18', 'c++filt'):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
compileall.compile_dir(os.path.join(V, 'vc'), quiet=1)
