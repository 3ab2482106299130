#!/usr/bin/env python3
"""Runs, for each planted bug in seeded/ (or those named), the check of its
property against a scratch copy of /repo with the bug.  Not used by any check.

    seeds.py [NAME...]"""
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name):
    d = os.path.join(HERE, 'seeded', name)
    prop = json.load(open(d + '/meta.json'))['property']
    work = '/tmp/seedrun/' + name
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, ignore=shutil.ignore_patterns(
        '.git', '__pycache__', '*.egg-info'))
    try:
        p = subprocess.run(['git', 'apply', '--unsafe-paths', '-p1',
                            '--directory=' + work, d + '/patch.diff'],
                           cwd='/', capture_output=True, text=True)
        if p.returncode:
            return name, prop, 'NO PATCH', p.stderr[-200:]
        c = subprocess.run([os.path.join(HERE, 'run.sh'), prop],
                           env=dict(os.environ, VH_REPO=work),
                           capture_output=True, text=True)
        result = {0: 'MISSED', 1: 'caught'}.get(c.returncode,
                                                'ERROR %d' % c.returncode)
        message = ' '.join(
            line[:160] for line in c.stdout.split('\n')
            if line.startswith(prop + '/') and ' cases, ' not in line)
        if c.returncode not in (0, 1):
            message += (c.stdout + c.stderr)[-500:]
        return name, prop, result, message
    finally:
        shutil.rmtree(work, ignore_errors=True)


names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as pool:
    for r in pool.map(run, names):
        print('%-24s %-4s %-8s %s' % r, flush=True)
