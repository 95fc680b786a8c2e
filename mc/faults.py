"""Every way to get an error out of a document, with the errors that are true of it."""

from . import ref_errors, sut
from .walk import accepts, children, line_of, reach, walk, where

MESSAGE = 'my message'


def refuse(value):
    raise ValueError(f'not {value}')


class Fault:
    """One request that must be rejected (or returns an error), and the errors that are acceptable."""

    __slots__ = ('path', 'form', 'call', 'errors', 'given')

    def __init__(self, path, form, call, errors, given=()):
        self.path = path
        self.form = form                 # what an empty element is used as
        self.call = call                 # method and arguments
        self.errors = errors if isinstance(errors, list) else [errors]
        self.given = given               # what a message function gets, if one is passed: ('key', value), ('element', node)

    def __repr__(self):
        return f'{self.call[0]}({", ".join(name_of(a) for a in self.call[1:])}) at {list(self.path)}' + (f' as {self.form}' if self.form else '')

    def perform(self, doc, text, **options):
        """(Rejected or whatever, problem with what a message function was given)"""
        element = reach(doc, sut.load(text, **options), self.path)
        if self.form:
            element = sut.attempt(getattr(element, 'to_' + self.form))
        arguments = list(self.call[1:])
        problem = []
        if self.given:
            def message(value):
                what, expected = self.given
                if what == 'element':
                    if where(value) != line_of(expected):
                        problem.append(f'the message function was given {value!r}, not {expected}')
                elif value != expected:
                    problem.append(f'the message function was given {value!r}, not {expected!r}')
                return MESSAGE
            arguments = [message]
        got = sut.attempt(getattr(element, self.call[0]), *arguments)
        if isinstance(got, sut.Error):
            got = sut.Rejected(got)
        return got, problem[0] if problem else None


def name_of(argument):
    return argument.__name__ if callable(argument) else repr(argument)


def faults(doc, callables=True):
    """All faults of a document the model accepts."""
    for path, node, above in walk(doc):
        kind = doc.kind(node)
        key = None if kind == 'document' else node.parent.key if kind == 'item' else node.key
        forms = ('field', 'empty', 'list', 'fieldset') if kind == 'empty' else (None,)

        for form in forms[:1]:
            for name, error, given in (('error', ref_errors.element_error, ('element', node)), ('key_error', ref_errors.key_error, ('key', key)),
                                       ('comment_error', ref_errors.comment_error, ('comment', doc.comment(node)))):
                yield Fault(path, form, (name, MESSAGE), error(doc, node, MESSAGE))
                if callables:
                    yield Fault(path, form, (name, MESSAGE), error(doc, node, MESSAGE), given)
            yield Fault(path, form, ('key', refuse), ref_errors.key_error(doc, node, f'not {key}'))
            if doc.comment(node) is None:
                yield Fault(path, form, ('required_string_comment',), ref_errors.missing_comment(doc, node))
                yield Fault(path, form, ('required_comment', str), ref_errors.missing_comment(doc, node))
            else:
                error = ref_errors.comment_error(doc, node, f'not {doc.comment(node)}')
                yield Fault(path, form, ('required_comment', refuse), error)
                yield Fault(path, form, ('optional_comment', refuse), error)

        if kind in ('field', 'multiline', 'entry', 'item', 'empty'):
            form = forms[0]
            value = doc.value(node)
            yield Fault(path, form, ('value_error', MESSAGE), ref_errors.value_error(doc, node, MESSAGE))
            if callables:
                yield Fault(path, form, ('value_error', MESSAGE), ref_errors.value_error(doc, node, MESSAGE), ('value', value))
            if value is None:
                yield Fault(path, form, ('required_string_value',), ref_errors.missing_value(doc, node))
                yield Fault(path, form, ('required_value', str), ref_errors.missing_value(doc, node))
            else:
                yield Fault(path, form, ('required_value', refuse), ref_errors.value_error(doc, node, f'not {value}'))
                yield Fault(path, form, ('optional_value', refuse), ref_errors.value_error(doc, node, f'not {value}'))

        if kind in ('list', 'empty'):
            items = doc.items(node)
            form = 'list' if kind == 'empty' else None
            missing = [ref_errors.missing_value(doc, item) for item in items if doc.value(item) is None]
            refused = [ref_errors.value_error(doc, item, f'not {doc.value(item)}') for item in items if doc.value(item) is not None]
            if missing:
                yield Fault(path, form, ('required_string_values',), missing)
                yield Fault(path, form, ('required_values', str), missing)
            if refused:
                yield Fault(path, form, ('optional_values', refuse), refused)

        below = children(doc, node)
        if kind in ('fieldset', 'empty'):
            form = 'fieldset' if kind == 'empty' else None
            for wanted in ['absent'] if below else ['absent', None]:
                yield Fault(path, form, ('required_entry', wanted), ref_errors.missing_element(doc, node, wanted, 'missing_fieldset_entry'))
            for wanted in [None] + keys(below):
                matches = [entry for entry in below if wanted in (None, entry.key)]
                if len(matches) > 1:
                    yield Fault(path, form, ('entry', wanted), ref_errors.unexpected_multiple(doc, wanted, matches, 'expected_single_fieldset_entry'))
            if below:
                untouched = [ref_errors.unexpected_element(doc, entry, MESSAGE) for entry in below]
                yield Fault(path, form, ('assert_all_touched', MESSAGE), untouched)

        if kind in ('document', 'section'):
            for as_kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
                for wanted in ['absent'] if below else ['absent', None]:
                    yield Fault(path, None, ('required_' + as_kind, wanted), ref_errors.missing_element(doc, node, wanted, 'missing_' + as_kind))
                for wanted in [None] + keys(below):
                    matches = [child for child in below if wanted in (None, child.key)]
                    if len(matches) > 1:
                        yield Fault(path, None, (as_kind, wanted), ref_errors.unexpected_multiple(doc, wanted, matches, 'expected_single_' + as_kind))
                    elif matches and not accepts(doc.kind(matches[0]), as_kind):
                        yield Fault(path, None, ('optional_' + as_kind, wanted), ref_errors.unexpected_type(doc, wanted, matches[0], 'expected_' + as_kind))
                    wrong = [child for child in matches if not accepts(doc.kind(child), as_kind)]
                    if wrong and as_kind not in ('element', 'empty'):
                        yield Fault(path, None, (as_kind + 's', wanted), [ref_errors.unexpected_type(doc, wanted, child, f'expected_{as_kind}s') for child in wrong])
            if below:
                yield Fault(path, None, ('assert_all_touched',), [ref_errors.unexpected_element(doc, child) for child in below])


def keys(nodes):
    return list(dict.fromkeys(node.key for node in nodes))
