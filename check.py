#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import runner, props
if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        from sa import frontend
        frontend.build_tool(); sys.exit(0)
    sys.exit(runner.main(props.REGISTRY, sys.argv))
