"""python3 -m zv.check P01 [--replay FILE]"""
import argparse
import importlib
import os
import sys

from . import engine


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--replay')
    a.add_argument('--part')
    a.add_argument('--cases', type=int)
    a.add_argument('--keep-going', action='store_true')
    o = a.parse_args()
    mod = importlib.import_module('zv.checks.' + o.property.lower())
    tier = 'thorough' if o.tier == 'thorough' else 'quick'
    sys.exit(engine.main(mod.CHECK, tier, o.seed, o.replay, o.part, o.cases, o.keep_going))


if __name__ == '__main__':
    main()
