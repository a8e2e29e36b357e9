#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import ctx
sys.exit(ctx.run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
