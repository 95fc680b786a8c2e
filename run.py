#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]

Decides one property on /repo's current working tree.  Exit 0: held on everything explored.  Exit 1 with a
line `VIOLATION property=<id> replay=<path>`: broken.  VERIF_TIER (quick, thorough) selects the bounds."""

import importlib
import json
import os
import resource
import sys
import traceback

os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)

JAVASCRIPT = ('P30', 'P31', 'P32', 'P33', 'P34', 'P35', 'P37')
if sys.argv[1:2] and sys.argv[1] in JAVASCRIPT:
    os.environ['VERIF_LANGUAGE'] = 'js'

from mc import explore, known, sut      # noqa: E402


MEMORY = 3 << 30


def main(argv):
    property_id = argv[0]
    module = importlib.import_module(f'mc.props.{property_id}')

    if len(argv) > 2 and argv[1] == '--replay':
        with open(argv[2]) as file:
            replay = json.load(file)
        if 'shard' in replay['case']:
            print(replay['message'])
            print('(found while running a whole part of the check; run the check again to reproduce)')
            return 1
        message = module.replay(replay['case'])
        print(message if message else 'the property holds on this case')
        return 1 if message else 0

    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)

    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))       # what runs out of it fails, rather than the sandbox
    explore.KNOWN.extend(known.findings(property_id))

    session = explore.Session(property_id, tier, seed)
    module.run(session)

    wall = session.finish(module)
    report = session.report

    for what in sorted(report.known):
        print(f'KNOWN-FINDING: property={property_id} {what}')

    print(f"{property_id} {tier}: {report.evaluations} executions compared, {len(report.states)} model states, "
          f"{report.transitions} transitions, {len(report.outcomes)} outcomes, {wall:.1f} s")

    violations = sorted(report.violations, key=lambda v: (len(json.dumps(v['case'])), json.dumps(v['case'])))
    if violations:
        first = violations[0]
        folder = os.path.join(explore.EVIDENCE or os.path.join(explore.VERIF, 'evidence'), 'replays')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f'{property_id}.json')
        with open(path, 'w') as file:
            json.dump({'property': property_id, **first, 'more': violations[1:5]}, file, indent=1)
            file.write('\n')
        print(f"case: {json.dumps(first['case'])}")
        print(first['message'])
        print(f'VIOLATION property={property_id} replay={path}')
        return 1

    if not report.evaluations or len(report.outcomes) < getattr(module, 'MIN_OUTCOMES', 2):
        print('the exploration was vacuous', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    try:
        status = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        status = 2
    sut.disarm()
    sys.exit(status)
