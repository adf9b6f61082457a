#!/usr/bin/env python3
"""checks/run.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))

import core      # noqa: E402
import plans     # noqa: E402
import svgc      # noqa: E402


def main():
    if len(sys.argv) > 2:
        core.TIER = sys.argv[2]
    pid = sys.argv[1]
    svgc.build(binary=pid in plans.NEED_BINARY)
    c = core.Check(pid)
    c.replay_findings = plans.replay_findings
    plans.PLANS[pid](c)
    if pid != 'C17':
        plans.replay_findings(c)
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
