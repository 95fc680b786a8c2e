"""Addressing elements, in the model and through the public interface of the implementation.

The content of a document is a tree: sections have elements, lists items, fieldsets entries, with everything that is
copied unfolded.  A path is a tuple of positions in this tree."""

from . import sut
from .sut import Crash

VALUES = ('field', 'multiline', 'entry', 'item')
FIELDLIKE = ('field', 'multiline', 'empty')


def children(doc, node):
    kind = doc.kind(node)
    if kind in ('document', 'section'):
        return doc.elements(node)
    if kind == 'fieldset':
        return doc.entries(node)
    if kind == 'list':
        return doc.items(node)
    return []


def walk(doc, node=None, path=(), above=None):
    """(path, node, node it was reached through) for everything in the document, the document first."""
    node = node or doc.root
    yield path, node, above
    for index, child in enumerate(children(doc, node)):
        yield from walk(doc, child, path + (index,), node)


def follow(doc, path):
    node = doc.root
    for index in path:
        node = children(doc, node)[index]
    return node


def reach(doc, document, path, cast=True):
    """The element at a path, obtained from the implementation.  With cast, what a query by its type would give (an
    empty element stays what elements() gives)."""
    node, element = doc.root, document
    for position, index in enumerate(path):
        parts = parts_of(doc, node, element)
        if not isinstance(parts, list) or index >= len(parts):
            raise Crash('navigation', RuntimeError(f'{parts!r} has no element {index}'))
        node, element = children(doc, node)[index], parts[index]
        last = position == len(path) - 1
        if (cast or not last) and doc.kind(node) in ('section', 'field', 'multiline', 'list', 'fieldset'):
            element = sut.attempt(getattr(element, 'to_' + to_name(doc, node)))
    return element


def parts_of(doc, node, element):
    kind = doc.kind(node)
    if kind in ('document', 'section'):
        return sut.attempt(element.elements)
    if kind == 'fieldset':
        return sut.attempt(element.entries)
    if kind == 'list':
        return sut.attempt(element.items)
    return []


def to_name(doc, node):
    kind = doc.kind(node)
    return 'field' if kind == 'multiline' else kind


def where(element):
    """Line on which the element starts, -1 for the document; which element it is, as a user can tell."""
    error = sut.attempt(element.error, 'where')
    selection = error.selection
    if selection['from']['index'] == 0 and selection['to']['index'] == 0 and element.raw().get('type') == 'document':
        return -1
    return selection['from']['line']


def line_of(node):
    return -1 if node.kind == 'document' else node.line


def form(element):
    """What an element can be used as, told by what it offers."""
    if element is None:
        return None
    if isinstance(element, sut.Rejected):
        return 'rejected'
    missing = element.raw() is None
    if hasattr(element, 'to_field'):
        name = 'element'
    elif hasattr(element, 'elements'):
        name = 'section'
    elif hasattr(element, 'entries'):
        name = 'fieldset'
    elif hasattr(element, 'items'):
        name = 'list'
    elif hasattr(element, 'optional_string_value'):
        name = 'value'
    else:
        name = 'empty'
    return ('missing ' if missing else '') + name


FORM = {'empty': 'empty', 'field': 'value', 'multiline': 'value', 'entry': 'value', 'item': 'value', 'fieldset': 'fieldset',
        'list': 'list', 'section': 'section', 'document': 'section', 'element': 'element'}


def accepts(kind, as_kind):
    """Whether an element of a kind qualifies as another: empty elements are also fields, fieldsets and lists without
    content, a multiline field is a field."""
    if as_kind == 'element':
        return True
    if as_kind == 'section':
        return kind == 'section'
    if as_kind == 'empty':
        return kind == 'empty'
    if as_kind == 'field':
        return kind in ('field', 'multiline', 'empty')
    return kind in (as_kind, 'empty')
