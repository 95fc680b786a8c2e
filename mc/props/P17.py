"""Elements can be used as what they are, and as one thing only."""

import itertools
import re

from .. import ref_errors, sut
from ..compare import describe, error_difference
from ..docprop import canonical, guarded, replayer
from ..walk import FORM, accepts, children, line_of, reach, walk
from .P14 import same

RULE = ('every document of the stated line forms; every element of it, obtained from its section or looked up by its line; every '
        'sequence of conversions (to_..., the queries of its section by its key, singular and plural) of the stated length; '
        'non-trivial: at least one conversion succeeds')
MIN_OUTCOMES = 4

TYPES = ('empty', 'field', 'fieldset', 'list', 'section')
INNER = {'fieldset_entry': 'entry', 'list_item': 'item'}


def convert(function, *arguments):
    """Result, Rejected, or InUse."""
    try:
        return sut.attempt(function, *arguments)
    except sut.Crash as crash:
        if isinstance(crash.__cause__, TypeError):
            return InUse(str(crash.__cause__))
        raise


class InUse(str):
    """What is said about an element that is in use as something else."""

    def difference(self, used, as_type):
        said = re.findall('[a-z]+', self.replace('_', ' ').replace('Element', ' element').lower())
        if not {used, as_type} <= set(said) or any(name in said for name in TYPES if name not in (used, as_type)):
            return f'it is in use as {used} and cannot be used as {as_type}, but the message is {str(self)!r}'


def outcome(doc, node, used, as_type, key, message):
    """What a conversion must give: ('TypeError', type), ('error', Err) or ('found',)."""
    kind = doc.kind(node)
    if used is not None and used != as_type and as_type not in INNER and as_type != 'section':
        return ('TypeError', used)
    if as_type in INNER and kind == INNER[as_type] or as_type not in INNER and accepts(kind, as_type):
        return ('found',)
    return ('error', ref_errors.unexpected_type(doc, key, node, message))


def difference_of(doc, node, expected, got, as_type):
    if expected[0] == 'TypeError':
        return got.difference(expected[1], as_type) if isinstance(got, InUse) else f'it is in use as something else already, but got {describe(got)}'
    if expected[0] == 'error':
        return error_difference(doc, expected[1], got, False, phase='validation')
    if isinstance(got, InUse):
        return f'raised TypeError({str(got)!r})'
    if isinstance(got, list):
        if len(got) != 1:
            return f'got {got}'
        got = got[0]
    return same(doc, node, got, 'value' if as_type in INNER else as_type)


def checker(length):
    @guarded
    def check(text, doc, report):
        if not doc.ok or doc.outside_model:
            return
        report.state(canonical(doc))

        def fail(node, history, message):
            report.violation({'text': text}, f'{text!r}: {history} on {node}: {message}')

        for path, node, above in list(walk(doc)):
            if doc.kind(above or node) not in ('document', 'section') or above is None:
                continue
            alone = sum(1 for other in children(doc, above) if other.key == node.key) == 1

            element = reach(doc, sut.load(text), path, cast=False)
            for as_type in TYPES:
                got = sut.attempt(getattr(element, 'yields_' + as_type))
                if got is not accepts(doc.kind(node), as_type):
                    return fail(node, 'yields_' + as_type, f'gives {got!r}')

            ways = [('to', as_type) for as_type in TYPES]
            if alone:
                ways += [('query', as_type) for as_type in TYPES] + [('all', as_type) for as_type in TYPES]
            for history in itertools.product(ways, repeat=length):
                document = sut.load(text)
                section = reach(doc, document, path[:-1])
                element = reach(doc, document, path, cast=False)
                used = None
                for how, as_type in history:
                    report.transitions += 1
                    if how == 'to':
                        key, message, function = None, 'expected_' + as_type, lambda: getattr(element, 'to_' + as_type)()
                    elif how == 'query':
                        key, message, function = node.key, 'expected_' + as_type, lambda: getattr(section, as_type)(node.key)
                    else:
                        key, message = node.key, f'expected_{as_type}s'
                        function = (lambda: getattr(section, as_type + 's')(node.key)) if as_type != 'empty' else None
                    if function is None:
                        continue
                    expected = outcome(doc, node, used, as_type, key, message)
                    if how != 'to' and not accepts(doc.kind(node), as_type):
                        # a query by type tells about the type first
                        expected = ('error', ref_errors.unexpected_type(doc, key, node, message))
                    got = convert(function)
                    report.evaluations += 1
                    report.outcomes[expected[0]] += 1
                    difference = difference_of(doc, node, expected, got, as_type)
                    if difference:
                        return fail(node, history, f'{how} {as_type}: {difference}')
                    if expected[0] == 'found':
                        used = as_type
                if used:
                    report.nontrivial += 1
                    if report.nontrivial % 9973 == 3:
                        report.sample({'document': text, 'line': node.line, 'conversions': history})

        # looked up by the line they are on
        for node in doc.nodes:
            kind = doc.kind(node)
            for history in itertools.product(TYPES + tuple(INNER), repeat=min(length, 2)):
                element = look(text, node)
                if element is None or isinstance(element, sut.Rejected):
                    return fail(node, 'lookup', f'gives {element!r}')
                for as_type in TYPES + tuple(INNER):
                    expected = kind == INNER[as_type] if as_type in INNER else accepts(kind, as_type)
                    got = sut.attempt(getattr(element, 'yields_' + as_type))
                    if got is not expected:
                        return fail(node, 'lookup', f'yields_{as_type} gives {got!r}')
                used = None
                for as_type in history:
                    report.transitions += 1
                    report.evaluations += 1
                    expected = outcome(doc, node, used, as_type, None, 'expected_' + as_type)
                    report.outcomes['looked up: ' + expected[0]] += 1
                    got = convert(getattr(element, 'to_' + as_type))
                    difference = difference_of(doc, node, expected, got, as_type)
                    if difference:
                        return fail(node, history, f'looked up, to_{as_type}: {difference}')
                    if expected[0] == 'found' and as_type not in INNER:
                        used = as_type
    return check


def look(text, node):
    result = sut.attempt(sut.lookup, text, line=node.line, column=0, locale=sut.TaggedLocale)
    return result if isinstance(result, sut.Rejected) else result['element']


check = checker(2)
replay = replayer(checker(3))


def run(session):
    more = session.pick(0, 1)
    lines = ['a:', 'b: v', '-- m\nw\n-- m', '- i', 'k = e', '# s', '| c']
    session.explore_lines('pairs of conversions', lines + ['# t < s', 'c < a'], 3 + more, checker(2))
    session.explore_lines('longer sequences', lines[:6], 2 + more, checker(3))
