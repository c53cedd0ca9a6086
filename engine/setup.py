#!/usr/bin/env python3
"""setup: nothing is compiled ahead of time (every check rebuilds from /repo); this only checks the tools."""
import shutil, sys
need = ['gcc', 'clang', 'cbmc', 'goto-cc', 'goto-instrument', 'ar']
miss = [t for t in need if not shutil.which(t)]
print('missing: ' + ' '.join(miss) if miss else 'tools present')
sys.exit(1 if miss else 0)
