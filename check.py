#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py ID --replay FILE | check.py ID --explore N [chunks] [start]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from vp import engine, registry


def main():
    pid = sys.argv[1]
    check = registry.get(pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    args = sys.argv[2:]
    if args and args[0] == '--replay':
        return engine.run_replay(check, args[1])
    if args and args[0] == '--explore':
        return engine.run_check(check, 'quick', seed, explore=int(args[1]),
                                only_chunks=int(args[2]) if len(args) > 2 else None, start=int(args[3]) if len(args) > 3 else 0)
    tier = args[0] if args else os.environ.get('VERIF_TIER', 'quick')
    return engine.run_check(check, tier, seed)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
