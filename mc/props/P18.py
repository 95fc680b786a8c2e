"""What is asked of a document, and in which order, makes no difference to the answers."""

import itertools

from .. import sut
from ..compare import first_difference
from ..docprop import canonical, case_replayer, guarded
from ..ref_doc import Doc
from ..walk import children, follow, form, reach, walk, where

RULE = ('every document of the stated line forms; every history of requests of the stated length on it, each answer compared with '
        'the one on a fresh document, and the complete content compared after it; non-trivial: histories of two or more requests')
MIN_OUTCOMES = 5


def refuse(value):
    raise ValueError(f'not {value}')


LOADERS = {'=refuse': refuse, '=str': str}

REQUESTS = {
    'any': [('raw',), ('error', 'message'), ('key_error', 'message'), ('comment_error', 'message'), ('optional_string_comment',),
            ('required_comment', '=refuse'), ('optional_comment', '=str'), ('string_key',), ('key', '=refuse'), ('touch',), ('__repr__',), ('parent',)],
    'value': [('optional_string_value',), ('required_string_value',), ('optional_value', '=refuse'), ('required_value', '=str'), ('value_error', 'message')],
    'list': [('items',), ('length',), ('optional_string_values',), ('required_string_values',), ('optional_values', '=refuse'), ('required_values', '=refuse'), ('required_values', '=str')],
    'fieldset': [('entries',), ('entries', 'k'), ('entry', 'k'), ('optional_entry', 'absent'), ('required_entry', 'absent'), ('entry',)],
    'section': [('elements',), ('elements', 'a'), ('element', 'a'), ('field', 'a'), ('fields',), ('fieldset', 'a'), ('fieldsets', 'a'), ('list', 'a'),
                ('lists',), ('empty', 'a'), ('section', 's'), ('sections',), ('optional_field', 'absent'), ('required_list', 'absent'), ('section',)],
    'element': [('to_empty',), ('to_field',), ('to_list',), ('to_fieldset',), ('to_section',), ('yields_field',), ('yields_list',), ('touch',), ('raw',)],
}


def requests(doc, few):
    result = []
    for path, node, _ in walk(doc):
        kind = doc.kind(node)
        what = {'document': 'section', 'section': 'section', 'list': 'list', 'fieldset': 'fieldset', 'empty': 'element'}.get(kind, 'value')
        chosen = REQUESTS[what] + (REQUESTS['any'] if what != 'element' else [])
        if few:
            chosen = [request for request in chosen if request[0] in (
                'raw', 'error', 'optional_string_comment', 'optional_string_value', 'items', 'optional_string_values', 'entries', 'elements', 'field',
                'fields', 'fieldset', 'list', 'touch', 'to_field', 'to_list')]
        result.extend([list(path), *request] for request in chosen)
    return result


def answer(doc, document, request):
    path, name, *arguments = request
    arguments = [LOADERS.get(argument, argument) for argument in arguments]
    try:
        element = reach(doc, document, path)
        return describe(sut.attempt(getattr(element, name), *arguments))
    except sut.Crash as crash:
        if isinstance(crash.__cause__, TypeError):
            return 'in use as something else'
        raise


def describe(value):
    """Everything a caller can tell about an answer."""
    if isinstance(value, sut.Error):
        value = sut.Rejected(value)
    if isinstance(value, sut.Rejected):
        return ('rejected', value.key())
    if isinstance(value, list):
        return [describe(part) for part in value]
    if hasattr(value, 'raw'):
        return (form(value), value.raw(), None if value.raw() is None else where(value))
    return value


def run_history(case, report, doc=None, fresh=None):
    doc = doc or Doc(case['text'])
    if fresh is None:
        fresh = [answer(doc, sut.load(case['text']), request) for request in case['history']]
    document = sut.load(case['text'])
    report.evaluations += 1
    for request, expected in zip(case['history'], fresh):
        got = answer(doc, document, request)
        report.transitions += 1
        report.outcomes[request[1]] += 1
        if got != expected and got != 'in use as something else' and expected != 'in use as something else':
            return report.violation(case, f"{case['text']!r}: after {case['history']}, {request} gives {got!r}, on a fresh document {expected!r}")
    raw = sut.attempt(document.raw)
    if raw != doc.raw(doc.root):
        report.violation(case, f"{case['text']!r}: after {case['history']}, {first_difference(doc.raw(doc.root), raw)}")


def checker(length, few, most=99):
    @guarded
    def check(text, doc, report):
        if not doc.ok or doc.outside_model or len(list(walk(doc))) > most:
            return
        report.state(canonical(doc))
        todo = requests(doc, few)
        fresh = [answer(doc, sut.load(text), request) for request in todo]
        for history in itertools.product(range(len(todo)), repeat=length):
            case = {'text': text, 'history': [todo[index] for index in history]}
            run_history(case, report, doc, [fresh[index] for index in history])
            report.nontrivial += 1
            if report.nontrivial % 99991 == 5:
                report.sample({'document': text, 'history': [request[:2] for request in case['history']]})
            if report.violations:
                return
    return check


replay = case_replayer(run_history)


def run(session):
    more = session.pick(0, 1)
    lines = ['> c', 'a: v', 'a:', '- i', 'k = e', '| w', '# s']
    session.explore_lines('pairs of all requests', lines, 2 + more, checker(2, False))
    session.explore_lines('pairs of requests', lines, 3 + more, checker(2, True, 4 + more))
    session.explore_lines('pairs of requests and copies', ['a: v', 'a:', '- i', 'k = e', 'b < a', '# t < s'], 2 + more, checker(2, True), prefix='# s')
    session.explore_lines('pairs of requests and merged sections', ['## s', 'a: v', '### r', '> c'], 3 + more, checker(2, True, 8 + more), prefix='# o\n> d\n## s\na: w\n# p << o')
    session.explore_lines('longer histories', lines, 2, checker(3, True, 2 + more))
    for what, prefix in (('lists', 'a:\n- i\nb < a\n- j'), ('fieldsets', 'a:\nk = e\nb < a\nl = f')):
        session.explore_lines(f'pairs of requests and merged {what}', ['c < b', '> c', '- m', 'k = g', '| w', '# s'], 2 + more, checker(2, True, 12), prefix=prefix)
    session.explore_lines('pairs of requests and multiline fields', ['-- a', '', 'v', '> c', 'b < a'], 4 + more, checker(2, not more))
