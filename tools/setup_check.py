#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (every check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ('g++', 'bash', 'python3') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing)); sys.exit(1)
print('ok')
