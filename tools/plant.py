"""Plant a bug: python3 tools/plant.py SPEC.py

SPEC.py defines BUGS = [dict(id, property, edits=[(file below python/enolib, old, new)], needs, breaks, demo)]; files of
the JavaScript library start with javascript/, and then the demonstration is for node.
Each is tried in a scratch copy; kept as seeded/<id> only if it applies, builds, passes the stable tests and its
demonstration tells the trees apart."""

import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plant'
BASE = '87c2779'
DEMO = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/python" exec python3 "$HERE/demo.py"
'''
DEMO_JS = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
exec node "$HERE/demo.js" "$PWD/javascript"
'''
JEST = """
rm -rf /tmp/plantjest; cp -a {scratch} /tmp/plantjest; cd /tmp/plantjest/javascript
find . -name '*.snap' | xargs sed -i 's#https://goo.gl/fbAQLP#https://jestjs.io/docs/snapshot-testing#'
cat > jest.config.js <<'J'
module.exports = {{ setupFilesAfterEnv: ['./jest.setup.js'], testRegex: '/specs/.*\\\\.spec\\\\.js$', snapshotFormat: {{escapeString: true, printBasicPrototype: true}} }};
J
NODE_PATH=/opt/veriftools/node/node_modules /opt/veriftools/node/node_modules/.bin/jest --ci; status=$?
rm -rf /tmp/plantjest; exit $status
"""


def sh(command, cwd=None):
    return subprocess.run(command, shell=True, cwd=cwd, capture_output=True, text=True, timeout=300)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for bug in bugs:
        if only and bug['id'] not in only:
            continue
        print(bug['id'], attempt(bug), flush=True)


def attempt(bug):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sh(f'cp -a /repo {SCRATCH}')
    touched = False
    for name, old, new in bug['edits']:
        path = f'{SCRATCH}/{name}' if name.startswith('javascript/') else f'{SCRATCH}/python/enolib/{name}'
        with open(path) as file:
            text = file.read()
        if text.count(old) != 1:
            return f'{name}: {text.count(old)} places for {old!r}'
        with open(path, 'w') as file:
            file.write(text.replace(old, new))
    diff = sh('git diff', SCRATCH).stdout
    name = None
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            name = line[6:]
            original = sh(f'git show {BASE}:{name}', SCRATCH).stdout.split('\n')
        elif line.startswith('-') and line[1:] in original and line[1:].strip():
            touched = True
    if not touched:
        return 'changes no original line'
    out = sh(f'sed s#/repo#{SCRATCH}#g /opt/vp/build.sh | bash')
    if out.returncode:
        return 'does not build ' + out.stderr[-300:]
    sh(f'sed s#/repo/#{SCRATCH}/#g /opt/vp/test.sh | bash -s {SCRATCH}/out.json')
    with open('/opt/vp/BASELINE.json') as file:
        stable = set(json.load(file)['stable'])
    with open(f'{SCRATCH}/out.json') as file:
        result = json.load(file)
    missing = stable - set(result['passed'])
    if missing:
        return f'{len(missing)} tests fail: {sorted(missing)[:2]}'
    js = any(name.startswith('javascript/') for name, _, _ in bug['edits'])
    if js:
        done = sh(JEST.format(scratch=SCRATCH))
        if done.returncode:
            return 'jest fails ' + '\n'.join(line for line in done.stderr.split('\n') if '●' in line or 'Tests:' in line)[:600]
    folder = f'{VERIF}/seeded/{bug["id"]}'
    new = f'{SCRATCH}/seed'
    os.makedirs(new)
    with open(f'{new}/demo.js' if js else f'{new}/demo.py', 'w') as file:
        file.write(bug['demo'].lstrip('\n'))
    with open(f'{new}/demo.sh', 'w') as file:
        file.write(DEMO_JS if js else DEMO)
    one, two = sh(f'bash {new}/demo.sh', '/repo'), sh(f'bash {new}/demo.sh', SCRATCH)
    if one.returncode:
        return 'demo fails on the unchanged tree ' + one.stderr[-600:] + one.stdout[-300:]
    if not two.returncode:
        return 'demo passes with the bug'
    shutil.rmtree(folder, ignore_errors=True)
    shutil.copytree(new, folder)
    with open(f'{folder}/patch.diff', 'w') as file:
        file.write(diff)
    with open(f'{folder}/meta.json', 'w') as file:
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, file, indent=1)
        file.write('\n')
    os.chmod(f'{folder}/demo.sh', 0o755)
    return 'kept'


main()
