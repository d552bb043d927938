#!/usr/bin/env python3
"""Nothing is built ahead (every check builds from the working tree); this looks whether the tools are there."""
import shutil, sys
miss = [t for t in ('g++', 'cmake', 'ninja', 'valgrind') if not shutil.which(t)]
print('missing: ' + ' '.join(miss) if miss else 'all tools are there')
sys.exit(1 if miss else 0)
