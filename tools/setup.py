#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds what it needs from /repo's working tree. This only confirms the tools are there."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'bmake', 'ld', 'objcopy', 'python3') if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'tools present'); sys.exit(1 if missing else 0)
