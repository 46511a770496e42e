#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's working tree); this only tests for the tools."""
import shutil, subprocess, sys
missing = [t for t in ('cargo', 'cargo-kani', 'python3-vt') if not shutil.which(t)]
if missing: sys.exit('missing: ' + ', '.join(missing))
subprocess.run(['cargo', '+nightly', '--version'], check=True)
