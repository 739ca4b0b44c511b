#!/bin/bash
# Builds what the checks need from the committed files (offline), and tests the arithmetic.
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0, 'harness'); sys.dont_write_bytecode = True
import tlc
tlc.build()
code, out = tlc.run('RatTest')
sys.exit(0 if code == 0 else out)
"
mkdir -p evidence
