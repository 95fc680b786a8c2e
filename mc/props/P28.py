"""Formatting that means nothing changes nothing."""

import itertools

from .. import sut
from ..compare import first_difference
from ..explore import Report
from ..ref_doc import Doc
from ..ref_lines import tokenize

RULE = ('every document of the stated line forms; every rewriting of it that means nothing: other whitespace before, after and between the '
        'tokens of any line, other escapes of any key, blank lines, comments that belong to nothing and line breaks at any place; one, '
        'or two of them; non-trivial: the document is accepted')
ASSUMPTIONS = ['that a rewriting of a line means nothing is decided by the reference tokenizer: the line has the same tokens',
               'of documents that are rejected, the kind of error and the names in it are compared']

BLANKS = ('', ' ', '\t  ', '\xa0\u2003')
ENDS = ('', ' ', '\t\r')


def meaning(tok):
    return (tok.kind, tok.key, tok.value, tok.template, tok.level, tok.deep)


def respaced(line, tok):
    """The line with other whitespace around and between its tokens."""
    spans = sorted(set(tok.spans.values()))
    body = line.strip()
    yield from (blank + body + end for blank in BLANKS for end in ENDS)
    lead = line[:len(line) - len(line.lstrip())]
    edges = sorted({edge for span in spans for edge in span})
    for edge in edges:
        left, right = line[:edge].rstrip(), line[edge:].lstrip()
        if left.strip() and right:
            yield from (left + blank + right for blank in BLANKS)
    if tok.key is not None and not tok.key.startswith('`'):
        for name in ('key', 'name'):
            if name in tok.spans and line[slice(*tok.spans[name])] == tok.key:
                begin, end = tok.spans[name]
                for escape in ('`{}`', '` {} `', '``{}``', '```\t{}```'):
                    yield line[:begin] + escape.format(tok.key) + line[end:]


def rewritings(doc):
    """[(at, end, lines)]: lines [at:end] of the document can as well be these."""
    result = []
    inside = set()
    ends = set()
    for node in doc.nodes:
        if node.kind == 'multiline':
            inside.update(range(node.line + 1, node.end_line))
            ends.add(node.end_line)
    if not doc.ok and doc.phase == 'analysis' and doc.errors[0].kind == 'unterminated_multiline_field':
        inside.update(range(doc.errors[0].line + 1, len(doc.lines)))
    after_error = doc.errors[0].line if not doc.ok and doc.phase == 'analysis' else None
    lines = doc.lines
    toks = [None if i in inside or i in ends else tokenize(line) for i, line in enumerate(lines)]

    def is_comment(i):
        return 0 <= i < len(lines) and toks[i] is not None and toks[i].kind == 'comment'

    at = 0
    while at < len(lines):
        if at in inside or (after_error is not None and at > after_error):
            at += 1
            continue
        if at in ends:
            body = lines[at].strip()
            dashes = len(body) - len(body.lstrip('-'))
            for line in {b + body[:dashes] + g + body[dashes:].lstrip() + e for b in BLANKS for g in BLANKS for e in ENDS}:
                if line != lines[at]:
                    result.append((at, at + 1, [line]))
        elif is_comment(at):
            end = at
            while is_comment(end):
                end += 1
            for blank in BLANKS[1:]:
                result.append((at, end, [blank + line for line in lines[at:end]]))
            for tail in (' ', '\t\r'):
                result.append((at, end, [line + tail for line in lines[at:end]]))
            at = end
            continue
        else:
            tok = toks[at]
            if tok.kind in ('invalid', 'unterminated'):
                for line in (' ' + lines[at], '\t  ' + lines[at]):
                    if meaning(tokenize(line)) == meaning(tok):
                        result.append((at, at + 1, [line]))
            else:
                for line in sorted(set(respaced(lines[at], tok))):
                    if line != lines[at] and meaning(tokenize(line)) == meaning(tok):
                        result.append((at, at + 1, [line]))
        at += 1

    for at in range(len(lines) + 1):
        if at in inside or at in ends:
            continue
        if at == len(lines) and at - 1 in inside:
            continue
        if is_comment(at - 1) and at < len(lines) and toks[at].kind != 'blank':
            continue
        for inserted in ([''], [' \t'], ['', ''], ['> note', ''], ['', '  > note', '>', '']):
            result.append((at, at, inserted))
    if not inside and all(tok is None or meaning(tokenize(line + '\r')) == meaning(tok) for line, tok in zip(lines, toks)):
        result.append((0, len(lines), [line + '\r' for line in lines]))
    return result


def rewrite(lines, changes):
    lines = list(lines)
    for at, end, new in sorted(changes, key=lambda change: (change[0], change[1]), reverse=True):
        lines[at:end] = new
    return '\n'.join(lines)


def summary(got):
    if isinstance(got, sut.Rejected):
        return ('rejected', got.type, got.kind, [arg for arg in got.args if not isinstance(arg, int)])
    return ('accepted', sut.attempt(got.raw))


def checker(count):
    def check(text, doc, report):
        try:
            original = summary(sut.load(text))
            report.evaluations += 1
            report.outcomes[original[0] if original[0] == 'accepted' else original[2]] += 1
            report.state(original)
            if original[0] == 'accepted' and doc.nodes:
                report.nontrivial += 1
                if report.nontrivial % 97 == 1:
                    report.sample({'document': text})
            for changes in combinations(rewritings(doc), count):
                other = rewrite(doc.lines, changes)
                report.evaluations += 1
                report.transitions += 1
                result = summary(sut.load(other))
                if result != original:
                    report.violation({'text': text, 'rewritten': other},
                                     f'{text!r} and {other!r} differ in formatting only, but: {first_difference(original, result, "")}')
                    return
        except sut.Crash as crash:
            report.violation({'text': text, 'rewritten': text}, f'{text!r}: {crash}')
    return check


def combinations(changes, count):
    yield from ((change,) for change in changes)
    if count > 1:
        for one, two in itertools.combinations(changes, 2):
            if one[1] <= two[0] and one[:2] != two[:2]:
                yield one, two
            elif two[1] <= one[0] and one[:2] != two[:2]:
                yield two, one


def replay(case):
    try:
        one, two = summary(sut.load(case['text'])), summary(sut.load(case['rewritten']))
    except sut.Crash as crash:
        return str(crash)
    return None if one == two else f'{case["text"]!r} gives {one}, {case["rewritten"]!r} gives {two}'


def run(session):
    more = session.pick(0, 1)
    lines = ['a:', 'b : v w', '| x', '\\ y', '- i', 'k = e', '-- m', '> c', '', '# s', '## t', 'c < a', '# u << s', ':']
    session.explore_lines('all line forms', lines, 3 + more, checker(1))
    session.explore_lines('two rewritings', lines, 2 + more, checker(2))
    session.explore_lines('continuations', ['a:', '- i', 'k =', '| x', '\\ y', '|', '> c', ''], 4 + more, checker(1), prefix='f:')
    session.explore_lines('comments', ['> c', '  > d', '>', '', 'a:', '- i', '# s'], 4 + more, checker(1))
    session.explore_lines('multiline fields', [' -- m', '-- m', '--- m', '', 'v ', '> c', 'n < m'], 4 + more, checker(1), prefix='--m')
    session.explore_lines('copies', ['a:', '- i', 'k = e', 'b < a', 'c<b', '# s', '# t < s', '# s << t', '## s'], 4 + more, checker(1))
    session.explore_strings('characters', 'a:=<`- #', 4 + more, checker(1), prefix='e:\n')
