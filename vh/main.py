"""Command line entry point: ``python -m vh.main C01 [--tier T] [--replay F]``."""

import argparse
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time

from vh import core


def load(property_id):
    module = importlib.import_module('checks.' + property_id.lower())
    return module


def worker(property_id, part_name, tier, seed, deadline, index):
    from vh import env
    env.prepare()
    module = load(property_id)
    part = {part.name: part for part in module.PARTS}[part_name]
    return core.run_part(part, tier, seed, deadline, index)


def load_known(property_id):
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['known']
                if x['property'] == property_id]


def run_known(property_id, finding):
    """Tells whether a listed finding still fails: runs its case."""
    from vh import env
    env.prepare()
    module = load(property_id)
    part = {part.name: part for part in module.KNOWN_PARTS}[finding['part']]
    try:
        core.run_one(part, finding['case'])
    except core.Violation as e:
        return str(e)
    return None


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=None)
    parser.add_argument('--replay', default=None)
    parser.add_argument('--part', default=None)
    args = parser.parse_args()

    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(
            os.environ['VERIF_SEED'].encode()).digest()[:4], 'little')
    property_id = args.property

    if args.replay is not None:
        from vh import env
        env.prepare()
        module = load(property_id)
        with open(args.replay) as f:
            replay = json.load(f)
        part = {part.name: part for part in module.PARTS}[replay['part']]
        try:
            core.run_one(part, replay['case'])
        except core.Violation as e:
            print('{}: {}'.format(part.name, e))
            print('VIOLATION property={} replay={}'.format(
                property_id, args.replay))
            return 1
        print('The case in {} holds.'.format(args.replay))
        return 0

    started = time.time()
    budget = 600 if tier == 'quick' else 2400
    budget = float(os.environ.get('VH_BUDGET', budget))
    deadline = started + budget

    # The list of parts is read in a process of its own as well, so that this
    # process never imports the code under test.
    ctx = multiprocessing.get_context('spawn')
    jobs = int(os.environ.get('VH_JOBS', '8'))
    with concurrent.futures.ProcessPoolExecutor(1, mp_context=ctx) as pool:
        parts = pool.submit(part_names, property_id).result()
    if args.part is not None:
        parts = [p for p in parts if p['name'] == args.part]
    tasks = [(p, i) for p in parts for i in range(p['workers'])]
    results = []
    pool = concurrent.futures.ProcessPoolExecutor(
        min(jobs, len(tasks)), mp_context=ctx, max_tasks_per_child=1)
    try:
        futures = [pool.submit(worker, property_id, p['name'], tier, seed,
                               deadline, i)
                   for p, i in tasks]
        by_part = {}
        for future, (p, i) in zip(futures, tasks):
            try:
                result = future.result()
            except Exception as e:
                result = {'part': p['name'], 'violation': None,
                          'error': 'worker died: {!r}'.format(e),
                          'evaluations': 0, 'skipped': 0, 'distinct': [],
                          'nontrivial': [], 'labels': {}, 'samples': [],
                          'wall_s': 0, 'slowest_case_s': 0,
                          'truncated': False}
            by_part.setdefault(p['name'], []).append(result)
        results = [core.merge_results(by_part[p['name']]) for p in parts]
        known_lines = []
        for finding in load_known(property_id):
            message = pool.submit(run_known, property_id, finding).result()
            if message is not None:
                known_lines.append('KNOWN-FINDING: property={} {}'.format(
                    property_id, finding['what']))
    finally:
        pool.shutdown()

    status = 0
    violations = 0
    for r in results:
        print('{}/{}: {} cases, {} distinct, {} non-trivial, {} outside the '
              'precondition, {:.1f} s{}'.format(
                  property_id, r['part'], r['evaluations'], r['distinct'],
                  r['nontrivial'], r['skipped'], r['wall_s'],
                  ', stopped at the time limit' if r['truncated'] else ''))
        if r['labels']:
            print('    ' + ', '.join('{}={}'.format(k, v) for k, v
                                     in sorted(r['labels'].items())))
    for line in known_lines:
        print(line)

    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    for r in results:
        if r['violation'] is not None:
            violations += 1
            replay_dir = os.path.join(core.VERIF, 'evidence', 'replay')
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, '{}-{}.json'.format(
                property_id, r['part']))
            with open(path, 'w') as f:
                json.dump({'property': property_id, 'part': r['part'],
                           'message': r['violation']['message'],
                           'case': r['violation']['case']}, f, indent=1,
                          sort_keys=True)
            print('{}/{}: {}'.format(property_id, r['part'],
                                     r['violation']['message']))
            print('minimal case: ' +
                  core.canonical(r['violation']['case'])[:3000])
            print('VIOLATION property={} replay={}'.format(property_id, path))
            status = 1
    for r in results:
        if r['error'] is not None:
            print('HARNESS ERROR in {}/{}:\n{}'.format(
                property_id, r['part'], r['error']), file=sys.stderr)
            if status == 0:
                status = 2

    # A run in which the search degenerated says nothing about the property.
    if status == 0:
        for r in results:
            if r['evaluations'] > 0 and r['nontrivial'] == 0 and \
                    not r['truncated']:
                print('HARNESS ERROR: no non-trivial case in {}/{}'.format(
                    property_id, r['part']), file=sys.stderr)
                status = 2

    evidence = {
        'property': property_id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['nontrivial'] for r in results),
            'rule': ' | '.join('{}: {}'.format(p['name'], p['rule'])
                               for p in parts),
            'samples': [{'part': r['part'], 'case': s}
                        for r in results for s in r['samples'][:2]],
            'parts': [{k: r[k] for k in ('part', 'evaluations', 'distinct',
                                         'nontrivial', 'skipped', 'labels',
                                         'wall_s', 'slowest_case_s',
                                         'truncated')}
                      for r in results],
        },
        'assumptions': sorted({a for p in parts for a in p['assumptions']}),
        'wall_s': round(time.time() - started, 2),
        'violations': violations,
    }
    path = os.path.join(core.VERIF, 'evidence', property_id + '.json')
    with open(path, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    return status


def part_names(property_id):
    from vh import env
    env.prepare()
    module = load(property_id)
    return [{'name': p.name, 'rule': p.rule, 'assumptions': p.assumptions,
             'workers': p.workers}
            for p in module.PARTS]


if __name__ == '__main__':
    sys.exit(main())
