#!/bin/bash
# Builds the harness once; every check rebuilds what it needs by itself.
cd "$(dirname "$0")/.." && exec python3 -c 'import sys; sys.path.insert(0, "bin"); import vlib; vlib.build_vx()'
