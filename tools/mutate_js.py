"""Mutants of the JavaScript library: which of those that its own tests let pass do the checks notice?

  node tools/mutants.js /opt/veriftools/node/node_modules/typescript /repo/javascript/lib > ALL
  tools/mutate_js.py tests ALL PASSED      the mutants the jest suite lets pass (both files lines of JSON; resumable)
  tools/mutate_js.py checks PASSED RESULT  which of the checks catch each of these (resumable)
"""

import json
import multiprocessing
import os
import shutil
import subprocess
import sys

BASE = os.environ.get('MUT_BASE', '/tmp/mutjs')
SRC = '/repo/javascript/lib'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JEST = '/opt/veriftools/node/node_modules/.bin/jest'
RELEVANT = {
    'lookup': 'P34 P32', 'analyze': 'P30 P34 P31 P33', 'grammar': 'P30 P34', 'resolve': 'P31 P33 P30', 'context': 'P30 P31 P33 P34', 'parsing': 'P33 P30',
    'selections': 'P33 P34', 'validation': 'P32 P33 P35', 'reporters/': 'P33', 'missing': 'P32', 'register': 'P32', '': 'P32 P35 P34 P31 P33',
}


def ident(mutant):
    return f"{mutant['file']}:{mutant['begin']}:{mutant['end']}:{mutant['new']}"


def workspace():
    folder = f'{BASE}/w{multiprocessing.current_process()._identity[0]}'
    if not os.path.exists(folder):
        os.makedirs(folder)
        shutil.copytree('/repo/locales', f'{folder}/locales')
        shutil.copytree('/repo/python', f'{folder}/python', symlinks=True)
        shutil.copytree('/tmp/jsjest/javascript', f'{folder}/javascript', symlinks=True)
        os.makedirs(f'{folder}/evidence')
    return folder


def apply(folder, mutant):
    path = f"{folder}/javascript/lib/{mutant['file']}"
    with open(f"{SRC}/{mutant['file']}") as file:
        text = file.read()
    # The offsets are those of UTF-16, but the sources are ASCII as far as mutants go
    with open(path, 'w') as file:
        file.write(text[:mutant['begin']] + mutant['new'] + text[mutant['end']:])
    return path, text


def limited(command, seconds, **kwargs):
    with subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kwargs) as process:
        try:
            out, _ = process.communicate(timeout=seconds)
            return process.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(process.pid, 9)
            process.communicate()
            return None, ''


def run_tests(mutant):
    folder = workspace()
    path, text = apply(folder, mutant)
    try:
        env = {**os.environ, 'NODE_PATH': '/opt/veriftools/node/node_modules'}
        code, _ = limited([JEST, '--ci', '-i', '--bail', '--cacheDirectory', f'{folder}/cache'], 60, cwd=f'{folder}/javascript', env=env)
        return mutant, code == 0
    finally:
        with open(path, 'w') as file:
            file.write(text)


def run_checks(mutant):
    folder = workspace()
    path, text = apply(folder, mutant)
    errors = []
    try:
        env = {**os.environ, 'ENOLIB_REPO': folder, 'VERIF_WORKERS': '1', 'VERIF_EVIDENCE': f'{folder}/evidence', 'VERIF_TIER': 'quick', 'VERIF_ENOUGH': '1'}
        env.setdefault('VERIF_JS_DOCUMENTS', '4000')
        for check in next(checks for part, checks in RELEVANT.items() if part in mutant['file']).split():
            code, out = limited([sys.executable, 'run.py', check], 1500, cwd=VERIF, env=env)
            if code == 1 and f'VIOLATION property={check}' in out:
                return mutant, check, errors
            if code != 0:
                errors.append([check, code, out[-300:]])
        return mutant, None, errors
    finally:
        with open(path, 'w') as file:
            file.write(text)


def main():
    mode, source, target = sys.argv[1:]
    with open(source) as file:
        todo = [json.loads(line) for line in file]
    if mode == 'checks':
        todo = [record.get('mutant', record) for record in todo if record.get('passed', True)]
    done = set()
    if os.path.exists(target):
        with open(target) as file:
            done = {ident(json.loads(line)['mutant']) for line in file}
    todo = [mutant for mutant in todo if ident(mutant) not in done]
    work = run_tests if mode == 'tests' else run_checks
    with multiprocessing.Pool(int(os.environ.get('MUT_POOL', 8))) as pool, open(target, 'a') as out:
        for record in pool.imap_unordered(work, todo):
            names = ('mutant', 'passed') if mode == 'tests' else ('mutant', 'caught', 'errors')
            out.write(json.dumps(dict(zip(names, record))) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
