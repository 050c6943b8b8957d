#!/usr/bin/env python3-vt
"""run.py <property-id> | run.py --replay <file>"""
import os
import sys
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rc = engine.replay_main(sys.argv[2])
    elif len(sys.argv) == 2:
        rc = engine.main(sys.argv[1])
    else:
        sys.stderr.write(__doc__ + "\n")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
