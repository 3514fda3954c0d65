#!/bin/sh
# nothing to compile: check that the tools are there and that the engine evaluates the program like the runtime does
cd "$(dirname "$0")" && mkdir -p evidence && python3-vt -B -c "import z3, sys; sys.path.insert(0,'.'); import dv.check" && test -x /opt/jy/jy
