#!/usr/bin/env python3
# bld.py PROG...: builds the programs named the way the checks do and prints their paths
import sys, os
sys.path.insert(0, '/verif'); import check
for n, p in check.build(sys.argv[1:]).items(): print(p); os.path.islink('/tmp/b_' + n) and os.unlink('/tmp/b_' + n); os.symlink(p, '/tmp/b_' + n)
