"""The table of planted bugs at the end of DESIGN.md: python3 tools/make_table.py [result of tools/catch.py]

With the result of a run of tools/catch.py, what it says was missed is marked."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN = '<!-- planted -->\n'


def main():
    missed, seen = set(), set()
    for path in sys.argv[1:]:
        with open(path) as file:
            for line in file:
                name, *rest = line.split()
                seen.add(name)
                missed.discard(name)
                if 'MISSED' in rest:
                    missed.add(name)
    rows = {}
    for name in sorted(os.listdir(f'{VERIF}/seeded')):
        with open(f'{VERIF}/seeded/{name}/meta.json') as file:
            data = json.load(file)
        mark = ' (**missed**)' if name in missed else ' (not tried)' if seen and name not in seen else ''
        rows.setdefault(data['property'], []).append(f"`{name.split('-', 1)[1]}`{mark}: {data['what_it_breaks']}")
    path = f'{VERIF}/DESIGN.md'
    with open(path) as file:
        text = file.read()
    head = text.split(BEGIN)[0]
    lines = [f'| {prop} | {"; ".join(bugs)} |' for prop, bugs in rows.items()]
    with open(path, 'w') as file:
        file.write(head + BEGIN + '\n| check | bugs |\n|---|---|\n' + '\n'.join(lines) + '\n')
    print(sum(map(len, rows.values())), 'bugs,', len(missed), 'missed')


main()
