"""Every element knows the element that contains it."""

from .. import sut
from ..compare import first_difference
from ..docprop import canonical, guarded, replayer
from ..walk import children, form, line_of, reach, to_name, walk, where

RULE = ('every document of the stated line forms; every element of it, reached through its section and looked up by every line '
        'of it; from there all the way up; non-trivial: the element is inside another element')
MIN_OUTCOMES = 4


def climb(doc, element, expected):
    """None if parent() leads through the expected nodes up to the document."""
    for node in expected:
        element = sut.attempt(element.parent)
        if element is None or isinstance(element, sut.Rejected):
            return f'parent() gives {element!r}, not {node}'
        kind = doc.kind(node)
        wanted = 'section' if kind == 'document' else kind
        if form(element) != wanted:
            return f'parent() gives a {form(element)}, not {node}'
        if where(element) != line_of(node):
            return f'parent() gives the element in line {where(element)}, not {node}'
        raw = sut.attempt(element.raw)
        if raw != doc.raw(node):
            return first_difference(doc.raw(node), raw, f'parent {node}')
    top = sut.attempt(element.parent)
    return None if top is None else f'the document has a parent {top!r}'


@guarded
def check(text, doc, report):
    if not doc.ok or doc.outside_model:
        return
    report.state(canonical(doc))
    trail = {}
    for path, node, above in list(walk(doc)):
        expected = [above] + trail[path[:-1]] if above is not None else []
        trail[path] = expected
        forms = ['empty', 'field', 'fieldset', 'list'] if doc.kind(node) == 'empty' else [None]
        for as_form in forms:
            document = sut.load(text)
            element = reach(doc, document, path)
            if as_form:
                element = sut.attempt(getattr(element, 'to_' + as_form))
            report.evaluations += 1
            report.transitions += len(path)
            report.outcomes[doc.kind(node)] += 1
            report.nontrivial += bool(path)
            problem = climb(doc, element, expected)
            if problem:
                return report.violation({'text': text}, f'{text!r}: from {node}: {problem}')

    for node in doc.nodes:
        expected = []
        at = node.parent
        while at is not None:
            expected.append(at)
            at = at.parent
        kind = doc.kind(node)
        for as_form in ['empty', 'field', 'fieldset', 'list'] if kind == 'empty' else \
                [{'entry': 'fieldset_entry', 'item': 'list_item'}.get(kind, to_name(doc, node))]:
            element = sut.attempt(sut.lookup, text, line=node.line, column=0, locale=sut.TaggedLocale)['element']
            element = sut.attempt(getattr(element, 'to_' + as_form))
            report.evaluations += 1
            report.transitions += len(expected)
            report.outcomes['looked up'] += 1
            report.nontrivial += 1
            problem = climb(doc, element, expected)
            if problem:
                return report.violation({'text': text}, f'{text!r}: looked up, from {node}: {problem}')
    if report.nontrivial % 997 == 5:
        report.sample({'document': text})


replay = replayer(check)


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('nesting', ['# a', '## b', '### c', 'f:', 'g: v', '- i', 'k = e', '-- m\n-- m'], 5 + more, check)
    session.explore_lines('copies', ['# a', '# b < a', '## c', '# d << a', 'f:', 'g < f', '- i', 'k = e', '> c'], 5 + more, check)
    session.explore_lines('merged sections', ['## b', '### c', 'f:', 'g: v', '- i', '> c'], 5 + more, check, prefix='# a\n## b\n### c\nx: y\n## d\n# e << a')
