"""Which checks catch which planted bugs: python3 tools/catch.py [--all] [id ...]

Applies each seeded/<id>/patch.diff to a scratch copy and runs the check of its property (with --all every check)."""

import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = f'/tmp/catch{os.getpid()}'


def run(command, **kwargs):
    return subprocess.run(command, shell=True, capture_output=True, text=True, **kwargs)


def main():
    everything = '--all' in sys.argv
    chosen = [arg for arg in sys.argv[1:] if not arg.startswith('--')]
    with open(f'{VERIF}/MANIFEST.json') as file:
        ids = [check['property'] for check in json.load(file)['checks']]
    for name in chosen or sorted(os.listdir(f'{VERIF}/seeded')):
        folder = f'{VERIF}/seeded/{name}'
        with open(f'{folder}/meta.json') as file:
            own = json.load(file)['property']
        shutil.rmtree(SCRATCH, ignore_errors=True)
        os.makedirs(f'{SCRATCH}/evidence')
        run(f'cp -a /repo {SCRATCH}/repo')
        applied = run(f'git apply {folder}/patch.diff', cwd=f'{SCRATCH}/repo')
        if applied.returncode:
            print(name, 'DOES NOT APPLY', applied.stderr)
            continue
        caught = []
        for check in ids if everything else [own]:
            done = run(f'{sys.executable} run.py {check}', cwd=VERIF, env={**os.environ, 'ENOLIB_REPO': f'{SCRATCH}/repo', 'VERIF_EVIDENCE': f'{SCRATCH}/evidence'})
            if done.returncode == 1 and f'VIOLATION property={check}' in done.stdout:
                caught.append(check)
            elif done.returncode:
                caught.append(f'{check}:error {done.returncode} {done.stderr[-200:]}')
        print(name, own, 'caught' if own in caught else 'MISSED', ' '.join(caught), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
