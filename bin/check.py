#!/usr/bin/env python3
"""bin/check.py PROPERTY [--tier quick|thorough]: decides one property; see DESIGN.md."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common as C  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    C.TIER = tier
    v = C.Verdict(prop, tier)
    try:
        mod = importlib.import_module('vlib.props')
        mod.CHECKS[prop](v, tier == 'thorough')
    except C.CheckError as e:
        print('ERROR of the check:', e)
        return 3
    return v.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
