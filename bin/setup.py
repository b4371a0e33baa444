#!/usr/bin/env python3
"""Nothing is built ahead: every check compiles /repo's working tree in its own scratch directory.
This only tells early when a tool is missing."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'ar', 'pkg-config') if not shutil.which(t)]
print('missing tools: %s' % missing if missing else 'tools present')
sys.exit(1 if missing else 0)
