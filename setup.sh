#!/bin/bash
# Warm the build of the code under test (the checks rebuild it when it changes).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
import vp
vp.build('rel')
P
