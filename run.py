#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--shards N] | run.py --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsm import core  # noqa: E402

if len(sys.argv) > 1 and sys.argv[1] == '--worker':
    _, _, prop, tier, seed, shard, nsh, out, dl = sys.argv
    core.worker(prop, tier, int(seed), int(shard), int(nsh), out, float(dl))
    sys.exit(0)
ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--shards', type=int)
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    if not os.environ.get('VSM_IN'):
        os.execve(core.PY, [core.PY]+sys.argv, dict(core.env_for_workers(), VSM_IN='1'))
    sys.exit(core.replay(a.replay))
sys.exit(core.run(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.shards))
