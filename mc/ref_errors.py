"""Reference model, layer 3: what an error says and shows.

An expected error is a ref_doc.Err: message kind and arguments, the lines it marks and the range it selects.
"""

from .ref_doc import Err

BEGIN = ((0, 0), (0, 0))


def rest_of(node):
    """Everything written below the first line of an element that still belongs to it."""
    return range(node.line + 1, node.last_line() + 1)


def line_end(doc, line):
    return (line, len(doc.lines[line]))


def begin_end(doc, node):
    """End of the first line of an element."""
    return line_end(doc, node.line)


def span(node, name):
    begin, end = node.tok.spans[name]
    return ((node.line, begin), (node.line, end))


def select_element(doc, node):
    if node.kind == 'document':
        return BEGIN
    return ((node.line, 0), line_end(doc, node.last_line()))


def with_key(kind, key):
    return (kind, ()) if key is None else (kind + '_with_key', (key,))


def missing_element(doc, parent, key, kind):
    kind, args = with_key(kind, key)
    if parent.kind == 'document':
        return Err(kind, args, (), (), (), BEGIN)
    indicated, questioned = {parent.line}, set()
    if parent.kind == 'section':
        scan = parent.line + 1
        for child in parent.children:
            indicated.update(range(scan, child.line))
            if child.kind == 'section':
                break
            indicated.add(child.line)
            questioned.update(rest_of(child))
            scan = child.last_line() + 1
    elif parent.kind == 'fieldset':
        questioned.update(rest_of(parent))
    return Err(kind, args, (), indicated, questioned, (begin_end(doc, parent), begin_end(doc, parent)))


def element_like(doc, kind, args, node):
    emphasized = () if node.kind == 'document' else (node.line,)
    return Err(kind, args, emphasized, () if node.kind == 'document' else rest_of(node), (), select_element(doc, node))


def unexpected_type(doc, key, node, kind):
    kind, args = with_key(kind, key)
    return element_like(doc, kind, args, node)


def unexpected_multiple(doc, key, nodes, kind):
    kind, args = with_key(kind, key)
    indicated = set()
    for node in nodes:
        indicated.update(rest_of(node))
    return Err(kind, args, [node.line for node in nodes], indicated, (), select_element(doc, nodes[0]))


def unexpected_element(doc, node, message=None):
    return element_like(doc, 'unexpected_element' if message is None else None, () if message is None else (message,), node)


def element_error(doc, node, message):
    return element_like(doc, None, (message,), node)


def key_error(doc, node, message):
    if node.kind == 'document':
        return Err('key_error', (message,), (), (), (), BEGIN)
    if node.kind == 'item':
        node = node.parent
    return Err('key_error', (message,), (node.line,), (), (), span(node, 'key'))


def missing_comment(doc, node):
    if node.kind == 'document':
        return Err('missing_comment', (), (), (), (), BEGIN)
    return Err('missing_comment', (), (node.line,), (), (), ((node.line, 0), (node.line, 0)))


def comment_error(doc, node, message):
    if node.kind == 'document':
        return Err('comment_error', (message,), (), (), (), BEGIN)
    comments = doc.comment_lines(node)
    if comments is None:
        return Err('comment_error', (message,), (node.line,), (), (), ((node.line, 0), (node.line, 0)))
    first, tok = comments[0]
    last = comments[-1][0]
    if len(comments) == 1 and tok.value is not None:
        begin, end = tok.spans['comment']
        selection = ((first, begin), (first, end))
    else:
        selection = ((first, 0), line_end(doc, last))
    return Err('comment_error', (message,), [line for line, _ in comments], (node.line,), (), selection)


def missing_value(doc, node):
    spans = node.tok.spans
    if node.kind == 'item':
        kind, args = 'missing_list_item_value', (node.parent.key,)
        begin = span(node, 'item_operator')[1]
    elif node.kind == 'entry':
        kind, args = 'missing_fieldset_entry_value', (node.key,)
        begin = span(node, 'entry_operator')[1]
    else:
        kind, args = 'missing_field_value', (node.key,)
        if 'template' in spans:
            begin = span(node, 'template')[1]
        elif 'element_operator' in spans:
            begin = span(node, 'element_operator')[1]
        else:
            begin = begin_end(doc, node)
    end = line_end(doc, node.conts[-1][0]) if node.conts else begin_end(doc, node)
    return Err(kind, args, (node.line,), rest_of(node), (), (begin, end))


def value_error(doc, node, message):
    """node: field like element, entry or item."""
    kind, args = 'value_error', (message,)
    if node.kind == 'empty' and doc.kind(node) == 'field':    # copied: the value is written elsewhere
        return Err(kind, args, (node.line,), (), (), span(node, 'key'))
    if node.kind == 'multiline':
        if node.end_line > node.line + 1:
            return Err(kind, args, range(node.line + 1, node.end_line), (), (),
                       ((node.line + 1, 0), line_end(doc, node.end_line - 1)))
        return Err(kind, args, (node.line,), rest_of(node), (), (begin_end(doc, node), begin_end(doc, node)))
    spans = node.tok.spans
    for name in ('value', 'element_operator', 'entry_operator', 'item_operator'):
        if name in spans:
            begin = span(node, name)[0 if name == 'value' else 1]
            break
    else:
        begin = begin_end(doc, node)
    if node.conts:
        end = line_end(doc, node.conts[-1][0])
    elif 'value' in spans:
        end = span(node, 'value')[1]
    else:
        end = begin_end(doc, node)
    return Err(kind, args, (node.line,), rest_of(node), (), (begin, end))


# ---------------------------------------------------------------------- snippets

def marks(doc, err):
    """line -> '>' '*' '?' ' ' or '...'; only shown lines are listed, in order."""
    count = len(doc.lines)
    tags = {}
    for lines, tag in ((err.questioned, '?'), (err.indicated, '*'), (err.emphasized, '>')):
        for line in lines:
            tags[line] = tag
    if not tags:
        return [(line, '?') for line in range(count)]
    result = []
    hidden = False
    for line in range(count):
        if line in tags:
            result.append((line, tags[line]))
            hidden = False
        elif any(near in tags for near in range(line - 2, line + 3)):
            result.append((line, ' '))
            hidden = False
        elif not hidden:
            result.append((line, '...'))
            hidden = True
    return result


def text_snippet(doc, err, locale, source=None):
    gutter = locale.gutter_header.rjust(5)
    width = len(gutter)
    head = f'-- {source} --\n\n' if source is not None else ''
    rows = [f'{head}  {gutter} | {locale.content_header}']
    for line, mark in marks(doc, err):
        if mark == '...':
            rows.append(' ' * (width - 2) + '...')
        else:
            rows.append(f' {mark}{str(line + 1).rjust(width)} | {doc.lines[line]}')
    return '\n'.join(rows)
