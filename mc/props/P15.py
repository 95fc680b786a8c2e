"""Missing elements: required ones raise, optional ones are None, and others stand in for what is missing."""

import itertools

from .. import ref_errors, sut
from ..compare import describe, error_difference
from ..docprop import canonical
from ..explore import Report
from ..ref_doc import Doc
from ..walk import FORM, follow, form, reach, walk
from .P14 import SINGLE, expected_entry, expected_one, same

RULE = ('every document of the stated line forms; every query (plain, optional_, required_) of every section and fieldset in it, '
        'after every history of settings of the stated length; for every missing element, every chain of calls on its stand-in; '
        'non-trivial: something is missing')
MIN_OUTCOMES = 6

FLAVOURS = ('', 'optional_', 'required_')


def loader(value):
    return value


# ---------------------------------------------------------------------- what stands in for a missing element

def stand_in(kind):
    """method -> ('none' | 'empty' | 'zero' | 'true' | 'error' | 'missing', kind, with key argument)"""
    table = {('raw',): 'none', ('optional_string_comment',): 'none', ('optional_comment', loader): 'none',
             ('required_string_comment',): 'error', ('required_comment', loader): 'error',
             ('string_key',): 'error', ('key', loader): 'error'}
    if kind in ('field', 'entry'):
        table |= {('optional_string_value',): 'none', ('optional_value', loader): 'none',
                  ('required_string_value',): 'error', ('required_value', loader): 'error'}
    if kind == 'fieldset':
        for args in ((), ('k',)):
            table |= {('entries', *args): 'empty', ('entry', *args): 'missing entry', ('optional_entry', *args): 'none',
                      ('required_entry', *args): 'error'}
    if kind == 'list':
        table |= {('items',): 'empty', ('length',): 'zero', ('optional_string_values',): 'empty', ('optional_values', loader): 'empty',
                  ('required_string_values',): 'empty', ('required_values', loader): 'empty'}
    if kind == 'section':
        for args in ((), ('k',)):
            for name in SINGLE:
                table |= {(name, *args): 'missing ' + name, (f'optional_{name}', *args): 'none', (f'required_{name}', *args): 'error'}
            for name in ('elements', 'fields', 'fieldsets', 'lists', 'sections'):
                table[(name, *args)] = 'empty'
    if kind == 'element':
        for name in ('empty', 'field', 'fieldset', 'list', 'section'):
            table |= {(f'to_{name}',): 'as ' + name, (f'yields_{name}',): 'true'}
    return table


VALUES = {'none': None, 'empty': [], 'zero': 0, 'true': True}


def chains(element, kind, outer, depth, visit):
    """Every call on a stand-in, and on what it returns in turn. outer: kind that is reported missing."""
    for call, effect in stand_in(kind).items():
        got = sut.attempt(getattr(element, call[0]), *call[1:])
        if effect == 'error':
            visit(call, got, outer)
        elif effect in VALUES:
            if not (got is None if effect == 'none' else type(got) is type(VALUES[effect]) and got == VALUES[effect]):
                return f'{call[0]} of a missing {kind} gives {describe(got)}'
        else:
            what, inner = effect.split()
            if form(got) != 'missing ' + FORM.get(inner, 'value'):
                return f'{call[0]} of a missing {kind} gives {describe(got)}, not a missing {inner}'
            if depth > 1:
                # what an element is used as is what is reported to be missing
                problem = chains(got, inner, inner if what == 'as' and outer == kind else outer, depth - 1, visit)
                if problem:
                    return f'{call[0]} of a missing {kind}: {problem}'
    return None


def message_kind(kind):
    return 'missing_' + {'entry': 'fieldset_entry'}.get(kind, kind)


def problem_of(doc, parent, key, kind, got):
    error = ref_errors.missing_element(doc, parent, key, message_kind(kind))
    return error_difference(doc, error, got, False, phase='validation')


# ---------------------------------------------------------------------- queries

def containers(doc):
    return [(path, node) for path, node, _ in walk(doc) if doc.kind(node) in ('document', 'section', 'fieldset', 'empty')]


def queries(doc, node):
    kinds = SINGLE if doc.kind(node) in ('document', 'section') else ('entry',)
    below = doc.elements(node) if doc.kind(node) in ('document', 'section') else doc.entries(node)
    for kind in kinds:
        for key in [(), (None,), ('absent',), ('',)] + [(key,) for key in dict.fromkeys(child.key for child in below) if key]:
            matches = below if not key or key[0] is None else [child for child in below if child.key == key[0]]
            yield kind, key, (expected_entry(doc, matches, key[0] if key else None) if kind == 'entry'
                              else expected_one(doc, node, matches, kind, key[0] if key else None))


def as_container(doc, document, path, node):
    element = reach(doc, document, path)
    return sut.attempt(element.to_fieldset) if doc.kind(node) == 'empty' else element


def check_query(doc, node, container, flavour, kind, key, expected, required, depth):
    """Problem, outcome."""
    got = sut.attempt(getattr(container, flavour + kind), *key)
    given = key[0] if key else None
    if expected[0] == 'error':
        for error in expected[1]:
            difference = error_difference(doc, error, got, False, phase='validation')
            if difference is None:
                return None, error.kind.replace('_with_key', '')
        return difference, 'error'
    if expected[0] == 'found':
        return same(doc, expected[1], got, 'value' if kind == 'entry' else kind), 'found'
    if flavour == 'required_' or required:
        return problem_of(doc, node, given, kind, got), 'missing: raised'
    if flavour == 'optional_':
        return (None if got is None else f'expected None, got {describe(got)}'), 'missing: none'
    if form(got) != 'missing ' + FORM.get(kind, 'value'):
        return f'expected a missing {kind}, got {describe(got)} ({form(got)})', 'stand-in'
    problems = []

    def visit(call, rejected, outer):
        difference = problem_of(doc, node, given, outer, rejected)
        if difference:
            problems.append(f'{call[0]} on what stands in for it: {difference}')

    problem = chains(got, kind, kind, depth, visit)
    return problem or (problems[0] if problems else None), 'missing: stand-in'


def check_queries(text, doc, report):
    if not doc.ok or doc.outside_model:
        return
    report.state(canonical(doc))
    for path, node in containers(doc):
        for kind, key, expected in list(queries(doc, node)):
            for flavour in FLAVOURS:
                run_case({'text': text, 'settings': [], 'path': list(path), 'query': [flavour, kind, *key]}, report, doc, expected, 2)
                if report.full:
                    return


# ---------------------------------------------------------------------- settings

def setting_ops(doc):
    for path, node in containers(doc):
        kind = doc.kind(node)
        for value in (True, False):
            yield ['all_elements_required' if kind in ('document', 'section') else 'all_entries_required', list(path), value]
        if kind != 'document':
            yield ['get', list(path)]
    yield ['all_elements_required', [], None]


def apply(doc, document, state, op):
    """Apply a setting to the implementation and to the model (path -> required)."""
    path = tuple(op[1])
    element = as_container(doc, document, path, follow(doc, path))
    if op[0] == 'get':
        return
    sut.attempt(getattr(element, op[0]), *([] if op[2] is None else [op[2]]))
    for other, _node, _ in walk(doc):
        if other[:len(path)] == path:
            state[other] = op[2] is not False


def check_settings(text, doc, report, length):
    if not doc.ok or doc.outside_model:
        return
    ops = list(setting_ops(doc))
    for count in range(1, length + 1):
        for history in itertools.product(ops, repeat=count):
            if history[-1][0] == 'get':
                continue
            for path, node in containers(doc):
                kinds = SINGLE if count == 1 else ('field', 'section')
                for kind in kinds if doc.kind(node) in ('document', 'section') else ('entry',):
                    for flavour in FLAVOURS[:2]:
                        run_case({'text': text, 'settings': [list(op) for op in history], 'path': list(path),
                                  'query': [flavour, kind, 'absent']}, report, doc, ('missing',), 1)
                        if report.full:
                            return


def run_case(case, report, doc=None, expected=None, depth=3):
    doc = doc or Doc(case['text'])
    flavour, kind, *key = case['query']
    path = tuple(case['path'])
    node = follow(doc, path)
    report.transitions += 1
    try:
        if expected is None:
            expected = next(e for k, args, e in queries(doc, node) if k == kind and list(args) == key)
        document = sut.load(case['text'])
        state = {}
        for op in case['settings']:
            apply(doc, document, state, op)
        if case['settings']:
            report.state((case['text'], sorted(state.items())))
        container = as_container(doc, document, path, node)
        problem, outcome = check_query(doc, node, container, flavour, kind, tuple(key), expected, state.get(path, False), depth)
    except sut.Crash as crash:
        problem, outcome = str(crash), 'crash'
    report.evaluations += 1
    report.outcomes[outcome] += 1
    if outcome.startswith('missing'):
        report.nontrivial += 1
        if report.nontrivial % 4999 == 7:
            report.sample(case)
    if problem:
        report.violation(case, f"{case['text']!r}: after {case['settings']}, {flavour}{kind}({key}) of {node}: {problem}")


def replay(case):
    report = Report()
    run_case(case, report)
    return report.violations[0]['message'] if report.violations else None


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('queries', ['a:', 'a: v', '-- a\nw\n-- a', '- i', 'k = e', '# a', '## a', '# b < a'], 3 + more, check_queries)
    session.explore_lines('settings', ['f:', 'k = e', '# a', '## b', '# c < a'], 3 + more,
                          lambda text, doc, report: check_settings(text, doc, report, 2))
    session.explore_lines('longer settings', ['# a', '## b', '### c'], 3, lambda text, doc, report: check_settings(text, doc, report, 2 + more), split=3)

    def deep(case, report):
        run_case(case, report, depth=4 + more)

    session.explore_cases('chains of calls on missing elements',
                          [{'text': text, 'settings': [], 'path': [], 'query': ['', kind, *key]} for text in ('', '> a\n\nx: v\n# s\n## t')
                           for kind in SINGLE for key in ((), ('absent',)) if key or not text] +
                          [{'text': '# s\n## t\nf:\n# u', 'settings': [], 'path': [0, 0], 'query': ['', kind, 'absent']} for kind in SINGLE] +
                          [{'text': '# s\n## t\nf:\nk = e\n# u', 'settings': [], 'path': [0, 0, 0], 'query': ['', 'entry', 'absent']}], deep)
