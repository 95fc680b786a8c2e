"""Loaders get exactly what is written, and their result or complaint reaches the caller."""

import itertools

from .. import ref_errors, sut
from ..compare import describe, error_difference
from ..docprop import canonical, guarded
from ..explore import Report
from ..ref_doc import Doc
from ..walk import follow, form, reach, walk

RULE = ('every document of the stated line forms; every element of it, every accessor that takes a loader, every behaviour of the '
        'loader; and every history of registrations of the stated length, with every accessor on every kind of element after it; '
        'non-trivial: the loader has something to load')
MIN_OUTCOMES = 6


class Strange(Exception):
    pass


class Special(ValueError):
    pass


def returning(value):
    return lambda _given: value


def raising(error):
    def loader(_given):
        raise error
    return loader


SENTINEL = object()
BEHAVIOURS = {
    'identity': lambda value: value,
    'object': returning(SENTINEL),
    'None': returning(None),
    'zero': returning(0),
    'empty string': returning(''),
    'False': returning(False),
    'empty list': returning([]),
    'an error as value': returning(ValueError('a value')),
    'complains': raising(ValueError('no good')),
    'complains without words': raising(ValueError()),
    'complains with many words': raising(ValueError('a', 'b')),
    'complains specially': raising(Special('{0} %s special')),
    'breaks': raising(Strange('broken')),
    'breaks with a KeyError': raising(KeyError('key')),
    'breaks with a TypeError': raising(TypeError('type')),
    'breaks with an AttributeError': raising(AttributeError('attribute')),
    'stops': raising(StopIteration()),
}

if sut.LANGUAGE != 'python':             # whatever a loader throws is its complaint
    BEHAVIOURS = {name: loader for name, loader in BEHAVIOURS.items() if not name.startswith(('breaks', 'stops'))}


def same(got, expected):
    if sut.LANGUAGE != 'python' and isinstance(expected, (str, int, list)):      # these are copied on their way to the library
        return type(got) is type(expected) and got == expected
    return got is expected


def call(function, *arguments):
    """Result, Rejected, or ('raised', exception) for what a loader raised."""
    try:
        return sut.attempt(function, *arguments)
    except sut.Crash as crash:
        if crash.__cause__ is None:
            raise
        return ('raised', crash.__cause__)


def accessors(doc, node):
    """(name, content, what error if it is missing and required, what error if the loader complains)"""
    kind = doc.kind(node)
    key = None if kind == 'document' else node.parent.key if kind == 'item' else node.key
    comment = doc.comment(node)
    yield 'key', key, None, ref_errors.key_error
    yield 'optional_comment', comment, None, ref_errors.comment_error
    yield 'required_comment', comment, ref_errors.missing_comment, ref_errors.comment_error
    if kind in ('field', 'multiline', 'entry', 'item', 'empty'):
        yield 'optional_value', doc.value(node), None, ref_errors.value_error
        yield 'required_value', doc.value(node), ref_errors.missing_value, ref_errors.value_error


def elements_of(doc):
    for path, node, _ in walk(doc):
        kind = doc.kind(node)
        for as_form in ('field', 'empty', 'list', 'fieldset') if kind == 'empty' else (None,):
            yield path, node, as_form


def obtain(doc, path, as_form, text):
    element = reach(doc, sut.load(text), path)
    return sut.attempt(getattr(element, 'to_' + as_form)) if as_form else element


@guarded
def check(text, doc, report):
    if not doc.ok or doc.outside_model:
        return
    report.state(canonical(doc))
    for path, node, as_form in elements_of(doc):
        for name, content, missing, complaint in accessors(doc, node):
            if name.endswith('value') and as_form not in (None, 'field'):
                continue
            for behaviour, loader in BEHAVIOURS.items():
                calls = []

                def recording(value):
                    calls.append(value)
                    return loader(value)

                got = call(getattr(obtain(doc, path, as_form, text), name), recording)
                report.evaluations += 1
                report.transitions += 1
                problem, outcome = verdict(doc, node, name, content, missing, complaint, loader, got, calls)
                report.outcomes[outcome] += 1
                report.nontrivial += content is not None
                if problem:
                    return report.violation({'text': text}, f'{text!r}: {name} of {node} with a loader that {behaviour}: {problem}')
        if doc.kind(node) == 'list' or as_form == 'list':
            problem = check_list(text, doc, path, node, as_form, report)
            if problem:
                return report.violation({'text': text}, f'{text!r}: {problem}')


def verdict(doc, node, name, content, missing, complaint, loader, got, calls):
    if content is None and name != 'key':
        if calls:
            return f'there is nothing to load, but the loader was called with {calls}', 'nothing'
        if missing is None:
            return (None if got is None else f'expected None, got {got!r}'), 'nothing'
        return error_difference(doc, missing(doc, node), got, False, phase='validation'), 'missing'
    if calls != [content]:
        return f'the loader was called with {calls}, not once with {content!r}', 'loaded'
    try:
        expected = loader(calls[0])
    except ValueError as error:
        return error_difference(doc, complaint(doc, node, str(error)), got, False, phase='validation'), 'complaint'
    except Exception as error:
        return (None if isinstance(got, tuple) and got[1] is error else f'expected {error!r} to be raised, got {got!r}'), 'broken loader'
    return (None if same(got, expected) else f'expected {expected!r}, got {got!r}'), 'loaded'


def check_list(text, doc, path, node, as_form, report):
    contents = [doc.value(item) for item in doc.items(node)]
    present = [content for content in contents if content is not None]
    for name in ('optional_values', 'required_values', 'optional_string_values', 'required_string_values'):
        for behaviour, loader in BEHAVIOURS.items() if 'string' not in name else [('identity', lambda value: value)]:
            calls = []
            results = []

            def recording(value):
                calls.append(value)
                results.append(loader(value))
                return results[-1]

            got = call(getattr(obtain(doc, path, as_form, text), name), *([recording] if 'string' not in name else []))
            report.evaluations += 1
            report.transitions += 1
            report.nontrivial += bool(present)
            missing = [item for item, content in zip(doc.items(node), contents) if content is None]
            errors = [ref_errors.missing_value(doc, item) for item in missing] if name.startswith('required') else []
            raised = None
            expected = []
            for item, content in zip(doc.items(node), contents):
                if content is None:
                    expected.append(None)
                    continue
                try:
                    expected.append(loader(content))
                except ValueError as error:
                    errors.append(ref_errors.value_error(doc, item, str(error)))
                except Exception as error:
                    raised = error
            if isinstance(got, tuple):
                if raised is None or got[1] is not raised:
                    return f'{name} of {node} with a loader that {behaviour}: raised {got[1]!r}'
                report.outcomes['list: broken loader'] += 1
            elif errors or raised:
                differences = [error_difference(doc, error, got, False, phase='validation') for error in errors]
                if not differences or None not in differences:
                    return f'{name} of {node} with a loader that {behaviour}: {differences}, raised {raised!r}, got {describe(got)}'
                report.outcomes['list: rejected'] += 1
            else:
                loaded = iter(results)
                if 'string' not in name:
                    expected = [None if content is None else next(loaded, None) for content in contents]
                if not isinstance(got, list) or len(got) != len(expected) or any(not same(a, b) and 'string' not in name or a != b for a, b in zip(got, expected)):
                    return f'{name} of {node} with a loader that {behaviour}: expected {expected!r}, got {got!r}'
                if 'string' not in name and calls != present:
                    return f'{name} of {node}: loaded {calls}, not {present}'
                report.outcomes['list: loaded'] += 1
    return None


# ---------------------------------------------------------------------- registration

def upper(value):
    return None if value is None else value.upper()


def length(value):
    return len(value or '')


def picky(value):
    raise ValueError(f'{value!r} is not good')


FUNCTIONS = {'upper': upper, 'length': length, 'picky': picky}
WAYS = ('function', 'dictionary', 'keyword')
SAMPLE = '> c\na: v\nb:\n\n- i\n-\n> d\nf:\nk = e\nl =\n# s\n-- m\nw\n-- m\n> e\n## t\nh:'
serial = itertools.count()


def histories(longest):
    steps = [(way, name, function) for way in WAYS for name in ('one', 'two') for function in FUNCTIONS]
    for count in range(1, longest + 1):
        yield from itertools.product(steps, repeat=count)
    # several definitions in one call
    for first, second in itertools.product(steps, repeat=2):
        if first[0] != second[0] or first[0] != 'keyword' or first[1] != second[1]:
            yield (('together', first, second),)


def register(step, prefix):
    if step[0] == 'together':
        positional, named, latest = [], {}, []
        for way, name, function in step[1:]:
            definition = make(prefix + name, FUNCTIONS[function])
            if way == 'function':
                positional.append(definition)
            elif way == 'dictionary':
                positional.append({prefix + name: definition})
            else:
                named[prefix + name] = definition
            latest.append((way == 'keyword', name, function))
        sut.attempt(sut.register, *positional, **named)
        # keywords come after positional definitions
        return [(name, function) for _, name, function in sorted(latest, key=lambda item: item[0])]
    way, name, function = step
    definition = make(prefix + name, FUNCTIONS[function])
    if way == 'function':
        sut.attempt(sut.register, definition)
    elif way == 'dictionary':
        sut.attempt(sut.register, {prefix + name: definition})
    else:
        sut.attempt(sut.register, **{prefix + name: definition})
    return [(name, function)]


def make(name, function):
    def definition(value):
        return function(value)
    definition.__name__ = name
    return definition


def generic(name):
    return {'key': f'{name}_key', **{f'{how}_{what}': f'{how}_{name}_{what}' for how in ('optional', 'required')
                                    for what in ('comment', 'value', 'values')}}


def check_registration(case, report):
    prefix = f'r{next(serial)}_'
    doc = Doc(SAMPLE)
    try:
        document = sut.load(SAMPLE)
        for name in ('one', 'two'):
            for registered in generic(prefix + name).values():
                if any(hasattr(element, registered) for _, element in everything(doc, document)):
                    return report.violation(case, f'{registered} exists before it is registered')
        current = {}
        for step in case:
            step = tuple(tuple(part) if isinstance(part, list) else part for part in step)
            for name, function in register(step, prefix):
                current[name] = function
        report.state(tuple(sorted(current.items())))
        for name, function in current.items():
            for what, registered in generic(prefix + name).items():
                for label, element in everything(doc, document):
                    counterpart = what.replace('key', 'string_key') if label.startswith('missing') and what == 'key' else what
                    if not hasattr(element, counterpart):
                        if hasattr(element, registered):
                            return report.violation(case, f'{label} has {registered}, but no {what}')
                        continue
                    if not hasattr(element, registered):
                        return report.violation(case, f'after registering {name}, {label} has no {registered}')
                    got = outcome_of(call(getattr(element, registered)))
                    if counterpart == 'string_key':
                        expected = outcome_of(call(element.string_key))
                    else:
                        expected = outcome_of(call(getattr(element, what), FUNCTIONS[function]))
                    report.evaluations += 1
                    report.outcomes['registered'] += 1
                    report.nontrivial += 1
                    if got != expected:
                        return report.violation(case, f'{label}: {registered} gives {got}, {what} with the loader gives {expected}')
        if report.nontrivial % 7 == 3:
            report.sample({'registrations': case})
    except sut.Crash as crash:
        report.violation(case, f'{case}: {crash}')


def outcome_of(got):
    return got.key() if isinstance(got, sut.Rejected) else got


def everything(doc, document):
    for path, node, _ in walk(doc):
        element = reach(doc, document, path)
        if form(element) == 'element':
            element = element.to_empty()
        yield str(node), element
    for kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
        yield 'missing ' + kind, getattr(document, kind)('absent')
    yield 'missing entry', document.fieldset('f').entry('absent')


def replay(case):
    report = Report()
    if isinstance(case, dict):
        check(case['text'], Doc(case['text']), report)
    else:
        check_registration(case, report)
    return report.violations[0]['message'] if report.violations else None


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('loaders', ['> c', '>', 'a:', 'b: v', '| w', '- i', '-', 'k = e', 'k =', '# s', 'c < b'], 3 + more, check)
    session.explore_lines('loaders and lists', ['- i', '-', '| w', '> c', '- j'], 3 + more, check, prefix='l:')
    session.explore_lines('loaders and copies', ['- i', 'k = e', '| w', 'b < a', '> c'], 3 + more, check, prefix='> d\na:')
    session.explore_lines('loaders and multiline fields', ['-- m', 'v', 'b < m', '> c', ''], 3 + more, check, prefix='-- m')
    session.explore_cases('registrations', [list(history) for history in histories(2 if not session.thorough else 3)], check_registration)
