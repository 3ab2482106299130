#!/usr/bin/env python3
"""Sensitivity runs: applies each small change of a list to a scratch copy of
/repo, runs the repository's tests there and the check of the property, and
prints what happened.  Not used by any check.

    mutants.py LIST.py [NAME...]

LIST.py defines M, a list of (name, property, file, [(old, new), ...])."""
import os, runpy, shutil, subprocess, sys, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(entry):
    name, prop, path, edits = entry[:4]
    work = '/tmp/mut/' + name
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, ignore=shutil.ignore_patterns(
        '.git', '__pycache__', '*.egg-info'))
    try:
        file = os.path.join(work, path)
        with open(file) as f:
            text = f.read()
        for old, new in edits:
            if text.count(old) != 1:
                return name, prop, 'BAD EDIT {} x {!r}'.format(
                    text.count(old), old), ''
            text = text.replace(old, new)
        with open(file, 'w') as f:
            f.write(text)
        t = subprocess.run(
            ['bash', '-c', '. /opt/vp/env.sh; cd {}; /opt/venv/bin/python -m '
             'pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3'.format(
                 work)], capture_output=True, text=True)
        tests = t.stdout.strip().split('\n')[-1]
        results = []
        message = ''
        for p in prop.split(','):
            env = dict(os.environ, VH_REPO=work)
            c = subprocess.run([os.path.join(HERE, 'run.sh'), p], env=env,
                               capture_output=True, text=True)
            results.append('{}:{}'.format(p, {0: 'MISSED', 1: 'caught'}.get(
                c.returncode, 'ERROR %d' % c.returncode)))
            lines = c.stdout.split('\n')
            for line in lines:
                if line.startswith(p + '/') and ': ' in line and \
                        ' cases, ' not in line:
                    message += line[:160] + ' '
            if c.returncode not in (0, 1):
                message += (c.stdout + c.stderr)[-600:]
        return name, ' '.join(results), tests, message
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    entries = runpy.run_path(sys.argv[1])['M']
    wanted = sys.argv[2:]
    entries = [e for e in entries if not wanted or e[0] in wanted]
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as pool:
        for r in pool.map(run, entries):
            flag = '' if 'failed' not in r[2] else ' TESTS FAIL'
            print('{:32} {:22}{} {}'.format(r[0], r[1], flag,
                                            r[3] or r[2]), flush=True)


if __name__ == '__main__':
    main()
