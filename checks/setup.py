#!/usr/bin/env python3
"""Build what the checks need; every check rebuilds it from /repo's current tree anyway."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import svgc      # noqa: E402

if __name__ == '__main__':
    svgc.build(binary=True)
