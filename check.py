#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--n RUNS] | --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import driver      # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--n', type=int)
    a.add_argument('--first', type=int, default=0)
    a.add_argument('--shards', type=int, default=8)
    a.add_argument('--cap', type=float)
    a.add_argument('--replay')
    x = a.parse_args()
    if x.replay:
        return driver.replay(x.replay)
    return driver.Check(x.prop, x.tier, x.seed, x.n, x.shards, x.cap,
                        x.first).main()


if __name__ == '__main__':
    sys.exit(main())
