#!/usr/bin/env python3
"""Nothing to build ahead of time: checks that the tools are present."""
import shutil, sys
miss = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'clang', 'clang++', 'opt') if not shutil.which(t)]
if miss:
    sys.exit('missing: ' + ' '.join(miss))
print('tools present')
