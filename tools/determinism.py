#!/usr/bin/env python3
"""Every seed is one exactly repeatable execution: runs the same seeds of every
property several times, split differently over processes and with the address
space laid out anew each time, and compares the hashes of the complete logs and
of the schedules.   tools/determinism.py [RUNS] [PROP...]"""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/sim')
from props import PROPS
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 200
only = sys.argv[2:]
env = dict(os.environ, ASAN_OPTIONS='handle_abort=1')
bad = 0
def batch(prop, var, stride):
    out = {}
    with tempfile.TemporaryDirectory() as d:
        ps = [subprocess.Popen([f'{here}/build/sim_{var}', 'batch', '--prop', prop, '--seed', '7', '--worker', str(w), '--stride', str(stride),
                                '--max', str(-(-(runs - w) // stride)), '--all', '1', '--out', f'{d}/{w}'], env=env, stderr=subprocess.DEVNULL) for w in range(stride)]
        for p in ps: p.wait()
        for w in range(stride):
            for l in open(f'{d}/{w}'):
                j = json.loads(l)
                if j['t'] == 'run': out[j['seed']] = tuple(j[k] for k in ('result', 'log_hash', 'sched_hash', 'log_lines', 'switches', 'sim_us', 'tape_len'))
    return out
for prop, p in sorted(PROPS.items()):
    if only and prop not in only: continue
    for var in p['variants']:
        a = batch(prop, var, 1)
        for stride in (5, 8):
            b = batch(prop, var, stride)
            diff = [s for s in a if a[s] != b.get(s)]
            bad += len(diff)
            if diff or len(a) != len(b): print(f'{prop} {var}: {len(diff)} of {len(a)} differ ({len(b)} runs), e.g. seed {diff[:1]}: {a.get(diff[0]) if diff else None} {b.get(diff[0]) if diff else None}')
        print(f'{prop} {var}: {len(a)} seeds, 3 executions each, {sum(x[3] for x in a.values())} log lines: ' + ('differ' if diff else 'identical'), flush=True)
sys.exit(bad > 0)
