#!/usr/bin/env python3
"""Checks that the tools the encodings need are there. Nothing is built ahead of time."""
import shutil, sys
bad = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'python3') if not shutil.which(t)]
if bad: print('missing tools: ' + ' '.join(bad)); sys.exit(1)
print('ok')
