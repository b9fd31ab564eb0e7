#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (VERIF_SEED,
VERIF_TIER). run.py setup: checks the tools. run.py replay <file>."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks  # noqa: E402


def setup():
    for t in ('g++', 'clang++-18', 'clang-18', 'valgrind', 'python3'):
        p = subprocess.run([t, '--version'], capture_output=True, text=True)
        if p.returncode:
            print('missing tool: ' + t)
            return 1
        print(t + ': ' + p.stdout.splitlines()[0])
    for d in ('build', 'evidence', 'replays', 'scratch'):
        os.makedirs(os.path.join(core.VERIF, d), exist_ok=True)
    return 0


def replay(path):
    r = json.load(open(path))
    os.environ['VERIF_SEED'] = str(r['seed'])
    os.environ['VERIF_TIER'] = r['tier']
    core.SEED, core.TIER = r['seed'], r['tier']
    core.THOROUGH = r['tier'] == 'thorough'
    env = core.san_env(r.get('env') or {})
    print('+ ' + ' '.join(r['exe'] + r['args']))
    if not os.path.exists(r['exe'][-1]):
        print('(the build is gone: run the check once more first)')
        return 2
    d = os.path.join(core.VERIF, 'scratch', 'replay')
    os.makedirs(d, exist_ok=True)
    args = r['args'] if r.get('raw') else r['args'] + ['--scratch', d]
    return subprocess.run(r['exe'] + args,
                          cwd=r.get('cwd') or d, env=env).returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    if a == 'setup':
        return setup()
    if a == 'replay':
        return replay(sys.argv[2])
    try:
        return checks.run(a)
    except core.HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
