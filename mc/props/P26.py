"""Looking up any position of a document finds the element and the token there."""

from .. import sut
from ..compare import first_difference
from ..docprop import canonical, guarded, replayer
from ..walk import line_of, where

RULE = ('every document of the stated line forms; every index of it and every line and column, and the ones just outside; '
        'non-trivial: there is a token at the position')
MIN_OUTCOMES = 10
ASSUMPTIONS = ['the token in a comment that stands right above an element is left open (none, or the right one)']


def enclosing(doc):
    """line -> the innermost element whose extent contains it. Sections extend up to the next section."""
    owners = [doc.root] * len(doc.lines)

    def claim(node, last):
        for line in range(node.line, last + 1):
            owners[line] = node
        for child in node.children:
            if child.kind != 'section':
                claim(child, child.last_line())

    sections = [doc.root] + [node for node in doc.nodes if node.kind == 'section']
    for position, section in enumerate(sections):
        begin = 0 if section is doc.root else section.line
        end = sections[position + 1].line if position + 1 < len(sections) else len(doc.lines)
        for line in range(begin, end):
            owners[line] = section
    for section in sections:
        for child in section.children:
            if child.kind != 'section':
                claim(child, child.last_line())
    return owners


def tokens_at(doc, line, column):
    """Acceptable token names at a position."""
    entry = doc.owner.get(line)
    text = doc.lines[line]
    from ..ref_lines import tokenize
    comment = False
    if entry is None:
        tok = tokenize(text)
        if tok.kind == 'blank':
            return {None}
        spans = tok.spans
    else:
        node, what = entry
        if what == 'value':
            return {None, 'value'}
        if what == 'end':
            dashes = len(text) - len(text.lstrip())
            level = node.tok.level
            begin = text.index(node.key, dashes + level)
            spans = {'multiline_field_operator': (dashes, dashes + level), 'key': (begin, begin + len(node.key))}
        else:
            comment = what.kind == 'comment'
            spans = what.spans
    best = None
    for name, (begin, end) in spans.items():
        if begin <= column <= end and (best is None or begin > spans[best][0]):
            best = name
    return {best, None} if comment else {best}


@guarded
def check(text, doc, report):
    if doc.outside_model:
        return
    if not doc.ok:
        got = sut.attempt(sut.lookup, text, index=0, locale=sut.TaggedLocale)
        report.evaluations += 1
        report.outcomes['rejected'] += 1
        if not isinstance(got, sut.Rejected) or got.type != 'parse':
            report.violation({'text': text}, f'{text!r}: lookup in an invalid document gives {got!r}')
        return
    report.state(canonical(doc))
    owners = enclosing(doc)

    def verify(label, line, column, got):
        report.evaluations += 1
        if isinstance(got, sut.Rejected) or set(got) != {'element', 'range'}:
            return f'{label} gives {got!r}'
        node = owners[line]
        if where(got['element']) != line_of(node):
            return f'{label}: expected {node}, got the element in line {where(got["element"])}'
        raw = sut.attempt(got['element'].raw)
        if raw != doc.raw(node):
            return f'{label}: ' + first_difference(doc.raw(node), raw, str(node))
        acceptable = tokens_at(doc, line, column)
        report.outcomes[str(got['range'])] += 1
        report.nontrivial += got['range'] is not None
        if got['range'] not in acceptable:
            return f'{label}: expected {acceptable}, got {got["range"]!r}'
        return None

    for line, content in enumerate(doc.lines):
        for column in range(len(content) + 1):
            report.transitions += 2
            by_line = sut.attempt(sut.lookup, text, line=line, column=column, locale=sut.TaggedLocale)
            index = doc.index(line, column)
            by_index = sut.attempt(sut.lookup, text, index=index, locale=sut.TaggedLocale)
            problem = verify(f'line {line}, column {column}', line, column, by_line) or verify(f'index {index}', line, column, by_index)
            if problem is None and by_line['range'] != by_index['range']:
                problem = f'line {line}, column {column} is {by_line["range"]}, index {index} is {by_index["range"]}'
            if problem:
                return report.violation({'text': text}, f'{text!r}: {problem}')

    for where_, arguments in (('before', {'index': -1}), ('after', {'index': len(text) + 1}), ('far after', {'index': len(text) + 100}),
                              ('before', {'line': -1, 'column': 0}), ('after', {'line': len(doc.lines), 'column': 0})):
        report.evaluations += 1
        try:
            got = sut.attempt(sut.lookup, text, locale=sut.TaggedLocale, **arguments)
        except sut.Crash as crash:
            if not isinstance(crash.__cause__, IndexError):
                raise
            report.outcomes['outside'] += 1
        else:
            return report.violation({'text': text}, f'{text!r}: {arguments} is outside the document, but gives {got!r}')
    if report.nontrivial % 499 == 3:
        report.sample({'document': text})


replay = replayer(check)


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('everything', ['a:', 'b : v', ' - i ', '| w', 'k = e', '> c', '', '# s', '`d` < a', '-- m\nx\n-- m'], 4 + more, check)
    session.explore_lines('lists and fieldsets', ['f:', '- i', 'k =', '\\ w', '> c', ''], 4 + more, check)
    session.explore_lines('sections', ['# s', '## t', '# `u` << s', 'a:', '', '>'], 4 + more, check)
    session.explore_lines('multiline fields', ['--m', ' -- m ', '--- n', '', 'v', '> c'], 4 + more, check)
    session.explore_lines('copies', ['a:', '- i', 'b < a', 'c<b', '| w', ''], 4 + more, check)
    session.explore_strings('tokens of one line', 'a:=<`- ', 6 + more, check, prefix='e:\n')
    session.explore_strings('tokens of a section', 'a<` #', 5 + more, check, prefix='# a\n# ')
    session.explore_strings('tokens of lines that start with an operator', '-|\\>a ', 4 + more, check, prefix='e:\n')
