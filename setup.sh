#!/bin/bash
# Builds the facts driver and warms the dependency build, offline.
set -e
cd "$(dirname "$0")"
python3 -c '
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import ctx
F = ctx.extract()
print("facts of", len(F.fns), "functions")
'
