"""Comparing what the implementation does with what the reference model says."""

from . import ref_errors, sut
from .ref_doc import Doc
from .sut import Rejected, TaggedLocale


def span_of(doc, selection):
    (bl, bc), (el, ec) = selection
    return ((bl, bc, doc.index(bl, bc)), (el, ec, doc.index(el, ec)))


def error_difference(doc, err, got, snippet=True, source=None, phase=None):
    """None if the error raised is the expected one, else what differs."""
    if not isinstance(got, Rejected):
        return f'expected {err}, but there was no error (got {describe(got)})'
    if phase and got.type != phase:
        return f'expected a {phase} error, got a {got.type} error'
    if (got.kind, got.args) != (err.kind, err.args):
        return f'expected {err.kind}{err.args}, got {got.kind}{got.args}'
    if got.span() != span_of(doc, err.selection):
        return f'{err.kind}: expected selection {span_of(doc, err.selection)}, got {got.span()}'
    if got.cursor != got.selection['from']:
        return f'{err.kind}: cursor {got.cursor} is not where the selection {got.selection} begins'
    if snippet:
        if err.kind == 'cyclic_dependency':
            return cyclic_snippet_difference(doc, err, got)
        expected = ref_errors.text_snippet(doc, err, TaggedLocale, source)
        if got.snippet != expected:
            return f'{err.kind}: expected snippet\n{expected}\ngot\n{got.snippet}'
    if got.message != f'{got.text}\n\n{got.snippet}' or got.string != got.message:
        return f'{err.kind}: message {got.message!r} is not text and snippet'
    return None


def cyclic_snippet_difference(doc, err, got):
    """A cycle may be shown from any of its members: the copy is emphasized, any other members indicated."""
    shown = {}
    for row in got.snippet.split('\n'):
        if len(row) > 1 and row[1] in '>*?' and ' | ' in row:
            shown.setdefault(row[1], set()).add(int(row[2:].split('|')[0]) - 1)
    if shown.get('>') != err.emphasized:
        return f'cyclic_dependency: expected line {sorted(err.emphasized)} emphasized, got\n{got.snippet}'
    if not shown.get('*', set()) <= err.indicated or shown.get('?'):
        return f'cyclic_dependency: only lines {sorted(err.indicated)} take part, got\n{got.snippet}'
    marked = type(err)(err.kind, err.args, err.emphasized, shown.get('*', ()), (), err.selection)
    expected = ref_errors.text_snippet(doc, marked, TaggedLocale)
    if got.snippet != expected:
        return f'cyclic_dependency: expected snippet\n{expected}\ngot\n{got.snippet}'
    return None


def verdict_difference(text, doc, got, snippet=True, source=None):
    """Accepted or rejected, and if so with one of the errors that are true of the document."""
    if doc.ok:
        if isinstance(got, Rejected):
            return f'a valid document was rejected: {got.kind}{got.args}'
        return None
    if not isinstance(got, Rejected):
        return f'an invalid document was accepted, expected one of {doc.errors[:3]}'
    if got.type != 'parse':
        return f'rejected with a {got.type} error'
    best = None
    for err in doc.errors:
        difference = error_difference(doc, err, got, snippet, source)
        if difference is None:
            return None
        if best is None or (err.kind, err.args) == (got.kind, got.args):
            best = difference
    if len(doc.errors) > 1 and not any((e.kind, e.args) == (got.kind, got.args) for e in doc.errors):
        return f'expected one of {doc.errors[:4]}, got {got.kind}{got.args}'
    return best


def describe(value):
    if isinstance(value, Rejected):
        return f'{value.type} error {value.kind}{value.args}'
    return repr(value)[:200]


def document_difference(text, doc=None, snippet=False, raw=True):
    """Parse text and compare verdict and complete content with the model. (got, difference)"""
    doc = doc or Doc(text)
    got = sut.load(text)
    if doc.outside_model:
        return got, None
    difference = verdict_difference(text, doc, got, snippet)
    if difference is None and raw and doc.ok:
        difference = content_difference(doc, got)
    return got, difference


def content_difference(doc, document):
    actual = sut.attempt(document.raw)
    expected = doc.raw(doc.root)
    if actual != expected:
        return 'content differs at ' + first_difference(expected, actual)
    return None


def asked_difference(doc, document):
    """The same content, obtained by asking every element for what it has."""
    try:
        actual = asked(document, 'document')
    except (AttributeError, TypeError, KeyError, IndexError) as error:
        raise sut.Crash('accessors', error) from error
    expected = doc.raw(doc.root)
    if actual != expected:
        return 'accessors differ from raw content at ' + first_difference(expected, actual)
    return None


def asked(element, kind):
    result = {'type': kind}
    comment = element.optional_string_comment()
    if kind not in ('document', 'list_item'):
        result['key'] = element.string_key()
    if kind in ('document', 'section'):
        result['elements'] = [asked_element(part) for part in element.elements()]
    elif kind == 'fieldset':
        result['entries'] = [asked(entry, 'fieldset_entry') for entry in element.entries()]
    elif kind == 'list':
        result['items'] = [asked(item, 'list_item') for item in element.items()]
    elif kind != 'empty_element':
        result['value'] = element.optional_string_value()
    if comment is not None or 'comment' in element.raw():
        result['comment'] = comment
    return result


def asked_element(element):
    if element.yields_empty():
        return asked(element, 'empty_element')
    for kind in ('field', 'fieldset', 'list', 'section'):
        if getattr(element, 'yields_' + kind)():
            return asked(getattr(element, 'to_' + kind)(), kind)
    raise sut.Crash('yields_*', RuntimeError('no type'))


def first_difference(expected, actual, path='document'):
    if type(expected) is not type(actual):
        return f'{path}: expected {expected!r}, got {actual!r}'
    if isinstance(expected, dict):
        if set(expected) != set(actual):
            return f'{path}: expected {expected!r}, got {actual!r}'
        for key in expected:
            if expected[key] != actual[key]:
                return first_difference(expected[key], actual[key], f'{path}.{key}')
    if isinstance(expected, list):
        if len(expected) != len(actual):
            return f'{path}: expected {len(expected)} {expected!r}, got {len(actual)} {actual!r}'
        for index, (one, two) in enumerate(zip(expected, actual)):
            if one != two:
                return first_difference(one, two, f'{path}[{index}]')
    return f'{path}: expected {expected!r}, got {actual!r}'
