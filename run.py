#!/usr/bin/env python3
"""run.py <property id> [--replay FILE] [--only SUB]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.core import main
if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
