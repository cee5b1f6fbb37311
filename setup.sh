#!/bin/sh
# Builds the code under test and all harness programs into /verif/build (offline, from /repo's working tree).
cd "$(dirname "$0")" && python3 -B -c "import sys; sys.path.insert(0,'lib'); import vlib; vlib.build()"
