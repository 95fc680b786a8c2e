"""Mutation of the library, to measure what the checks detect (not part of any check).

  python3 tools/mutate.py list OUT.json           all mutants: file, line, range, replacement
  python3 tools/mutate.py tests IN.json OUT.json  those that build and pass the existing tests
  python3 tools/mutate.py checks IN.json OUT.jsonl  which check detects each of these first (resumes)

Works on scratch copies of /repo/python below /tmp/mut."""

import ast
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

BASE = '/tmp/mut'
SRC = '/repo/python/enolib'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sources():
    for folder, _, names in sorted(os.walk(SRC)):
        for name in sorted(names):
            if name.endswith('.py'):
                yield os.path.relpath(os.path.join(folder, name), SRC)


class Mutator(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.starts = [0]
        for line in text.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.data = text.encode()
        self.out = []

    def at(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        begin, end = self.at(node)
        return self.data[begin:end].decode()

    def replace(self, node, new):
        begin, end = self.at(node)
        if self.data[begin:end].decode() != new:
            self.out.append((begin, end, new, node.lineno))

    def between(self, left, right, olds, new):
        begin, end = self.at(left)[1], self.at(right)[0]
        gap = self.data[begin:end].decode()
        changed = re.sub(olds, new, gap, count=1)
        if changed != gap:
            self.out.append((begin, end, changed, left.end_lineno))

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = node.left, node.comparators[0]
            table = {ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='),
                     ast.GtE: ('>=', '>'), ast.Is: (r'is(?! not)', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: (r'\bin\b', 'not in'),
                     ast.NotIn: ('not in', 'in')}
            old, new = table[type(node.ops[0])]
            self.between(left, right, old, new)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        old, new = (r'\band\b', 'or') if isinstance(node.op, ast.And) else (r'\bor\b', 'and')
        for left, right in zip(node.values, node.values[1:]):
            self.between(left, right, old, new)
        for value in node.values:
            self.replace(value, 'True' if isinstance(node.op, ast.And) else 'False')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.replace(node, '(' + self.src(node.operand) + ')')
        elif isinstance(node.op, ast.USub):
            self.replace(node, '(' + self.src(node.operand) + ')')
            return
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Add):
            self.between(node.left, node.right, r'\+', '-')
            self.replace(node, self.src(node.left))
            self.replace(node, self.src(node.right))
        elif isinstance(node.op, ast.Sub):
            self.between(node.left, node.right, '-', '+')
            self.replace(node, self.src(node.left))
        self.generic_visit(node)

    def visit_If(self, node):
        self.replace(node.test, 'True')
        self.replace(node.test, 'False')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.replace(node, self.src(node.body))
        self.replace(node, self.src(node.orelse))
        self.generic_visit(node)

    def visit_While(self, node):
        self.replace(node.test, 'False')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if node.value is True:
            self.replace(node, 'False')
        elif node.value is False:
            self.replace(node, 'True')
        elif node.value is None:
            pass
        elif isinstance(node.value, int):
            self.replace(node, str(node.value + 1))
            if node.value:
                self.replace(node, str(node.value - 1))
        elif isinstance(node.value, str) and node.value not in ('',):
            self.replace(node, repr(node.value + 'X'))
            if not node.value.isidentifier():
                self.replace(node, "''")

    def visit_JoinedStr(self, node):
        pass

    def visit_Expr(self, node):
        if not isinstance(node.value, ast.Constant):
            self.replace(node, 'pass')
            self.generic_visit(node)

    def visit_Assign(self, node):
        self.replace(node, 'pass')
        if not isinstance(node.value, ast.Constant) or node.value.value is not None:
            self.replace(node.value, 'None')
        self.generic_visit(node)

    visit_AugAssign = visit_Assign

    def visit_Return(self, node):
        if node.value is not None:
            if not (isinstance(node.value, ast.Constant) and node.value.value is None):
                self.replace(node.value, 'None')
            self.generic_visit(node)
        else:
            self.replace(node, 'pass')

    def visit_Continue(self, node):
        self.replace(node, 'pass')
        self.replace(node, 'break')

    def visit_Break(self, node):
        self.replace(node, 'pass')
        self.replace(node, 'continue')

    def visit_Raise(self, node):
        self.replace(node, 'pass')

    def visit_Call(self, node):
        for keyword in node.keywords:
            if keyword.arg and isinstance(keyword.value, ast.Constant):
                pass
        self.generic_visit(node)

    def visit_ListComp(self, node):
        for gen in node.generators:
            for cond in gen.ifs:
                self.replace(cond, 'True')
        self.generic_visit(node)

    def visit_Slice(self, node):
        if node.lower is not None:
            self.replace(node.lower, '')
        if node.upper is not None:
            self.replace(node.upper, '')
        self.generic_visit(node)


def regex_mutants(text):
    """Textual mutants of the grammar."""
    out = []
    for match in re.finditer(r"""'[^'\n]*'""", text):
        inner = match.group()
        base = match.start()
        for token, news in ((r'\*\?', ['*', '+?']), (r'\+\?', ['+', '*?']), (r'(?<!\\)\*(?!\?)', ['+', '*?', '']), (r'(?<![\\(])\+(?!\?)', ['*', '']),
                            (r'(?<=[\])\w}])\?', ['']), (r'\\S', [r'.', r'[^\\n]']), (r'\[\^\\S\\n\]', [r'\\s', ' ']), (r'\|', ['']), (r'\^', ['']),
                            (r'\(\?!', ['(?=']), (r'\{2,\}', ['{1,}', '{3,}', '{2}'])):
            for hit in re.finditer(token, inner):
                for new in news:
                    begin, end = base + hit.start(), base + hit.end()
                    out.append((len(text[:begin].encode()), len(text[:end].encode()), new.replace('\\\\', '\\'), text[:begin].count('\n') + 1))
    return out


def mutants():
    result = []
    for name in sources():
        with open(os.path.join(SRC, name)) as file:
            text = file.read()
        mutator = Mutator(text)
        mutator.visit(ast.parse(text))
        found = mutator.out + (regex_mutants(text) if 'grammar' in name else [])
        data = text.encode()
        for begin, end, new, line in sorted(set(found)):
            changed = data[:begin] + new.encode() + data[end:]
            try:
                ast.parse(changed.decode())
            except SyntaxError:
                continue
            result.append({'file': name, 'line': line, 'begin': begin, 'end': end, 'new': new, 'old': data[begin:end].decode()})
    return result


def workspace():
    index = multiprocessing.current_process()._identity[0]
    folder = f'{BASE}/w{index}'
    if not os.path.exists(folder):
        os.makedirs(folder)
        shutil.copytree('/repo/locales', f'{folder}/locales')
        shutil.copytree('/repo/python', f'{folder}/python', symlinks=True)
        os.makedirs(f'{folder}/evidence')
    return folder


def apply(folder, mutant):
    with open(os.path.join(SRC, mutant['file']), 'rb') as file:
        data = file.read()
    path = f"{folder}/python/enolib/{mutant['file']}"
    with open(path, 'wb') as file:
        file.write(data[:mutant['begin']] + mutant['new'].encode() + data[mutant['end']:])
    return path, data


def limited(command, seconds, **kwargs):
    try:
        return subprocess.run(['prlimit', '--as=4000000000', *command], timeout=seconds, capture_output=True, text=True, **kwargs)
    except subprocess.TimeoutExpired:
        return None


def stable():
    with open('/opt/vp/BASELINE.json') as file:
        return set(json.load(file)['stable'])


def run_tests(mutant):
    folder = workspace()
    path, data = apply(folder, mutant)
    try:
        env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': f'{folder}/python'}
        done = limited(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py'], 15,
                       cwd=f'{folder}/python', env=env)
        return mutant, done is not None and done.returncode == 0, (done.stdout[-300:] if done else 'timeout')
    finally:
        with open(path, 'wb') as file:
            file.write(data)


RELEVANT = {
    'lookup': 'P26 P20 P14 P27', 'message': 'P25 P21', 'reporter': 'P22 P24 P23 P21 P25 P20', 'grammar': 'P02 P08 P05 P04 P03 P07',
    'resolver': 'P10 P12 P11 P09 P18 P01 P22 P07', 'analyzer': 'P05 P03 P06 P04 P07 P08 P12 P22 P26 P21 P10 P02 P28 P09',
    'errors': 'P21 P08 P12 P22 P15 P14 P16 P17', 'missing': 'P15 P14', 'register': 'P19', 'context': 'P07 P04 P14 P10 P11 P26 P18 P09 P21',
    '': 'P14 P15 P17 P16 P19 P21 P20 P27 P18 P26',
}


def preferred(name):
    """The checks that may well notice, as far as there is time for."""
    return next(checks for part, checks in RELEVANT.items() if part in name).split()


def run_checks(mutant):
    folder = workspace()
    path, data = apply(folder, mutant)
    errors = []
    try:
        env = {**os.environ, 'ENOLIB_REPO': folder, 'VERIF_WORKERS': os.environ.get('MUT_WORKERS', '1'), 'VERIF_EVIDENCE': f'{folder}/evidence', 'VERIF_TIER': 'quick', 'VERIF_ENOUGH': '1'}
        for check in preferred(mutant['file']):
            done = limited([sys.executable, 'run.py', check], 1500, cwd=VERIF, env=env)
            if done is None:
                errors.append([check, 'timeout'])
            elif done.returncode == 1 and f'VIOLATION property={check}' in done.stdout:
                return mutant, check, errors, done.stdout[-400:]
            elif done.returncode != 0:
                errors.append([check, done.stderr[-300:]])
        return mutant, None, errors, ''
    finally:
        with open(path, 'wb') as file:
            file.write(data)


def ident(mutant):
    return f"{mutant['file']}:{mutant['begin']}:{mutant['end']}:{mutant['new']}"


def main():
    mode = sys.argv[1]
    if mode == 'list':
        found = mutants()
        with open(sys.argv[2], 'w') as file:
            json.dump(found, file, indent=0)
        print(len(found))
    elif mode == 'tests':
        with open(sys.argv[2]) as file:
            todo = json.load(file)
        passed = []
        with multiprocessing.Pool(8) as pool:
            for index, (mutant, ok, _) in enumerate(pool.imap_unordered(run_tests, todo)):
                if ok:
                    passed.append(mutant)
                if index % 200 == 0:
                    print(index, len(passed), flush=True)
        passed.sort(key=ident)
        with open(sys.argv[3], 'w') as file:
            json.dump(passed, file, indent=0)
        print(len(passed))
    elif mode == 'checks':
        with open(sys.argv[2]) as file:
            todo = json.load(file)
        done = set()
        if os.path.exists(sys.argv[3]):
            with open(sys.argv[3]) as file:
                done = {json.loads(line)['id'] for line in file}
        todo = [mutant for mutant in todo if ident(mutant) not in done]
        with multiprocessing.Pool(int(os.environ.get('MUT_POOL', 8))) as pool, open(sys.argv[3], 'a') as out:
            for mutant, check, errors, tail in pool.imap_unordered(run_checks, todo):
                out.write(json.dumps({'id': ident(mutant), 'mutant': mutant, 'caught': check, 'errors': errors, 'tail': tail}) + '\n')
                out.flush()


if __name__ == '__main__':
    main()
