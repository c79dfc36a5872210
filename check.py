#!/usr/bin/env python3
"""Entry point: check.py PROPERTY [--tier quick|thorough]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from geostat import registry
    return registry.run(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    sys.exit(main())
