"""Entry point: main.py <property> [--tier quick|thorough] [--replay FILE]."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import harness


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--worker')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    if a.worker:
        return harness.worker(a.property, a.worker, a.shard, a.cases, a.seed, a.out, a.budget)
    if a.replay:
        return harness.replay(a.property, a.replay)
    seed = int(os.environ.get('VERIF_SEED') or '1')
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    return harness.drive(a.property, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
