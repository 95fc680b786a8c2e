"""Reference model, layer 2: what a whole eno document means.

Everything is computed denotationally from the list of lines: no shared mutable caches, no
dependence on evaluation order.  `Doc(text)` carries either `errors` (the parse must be rejected with
one of them) or a tree of `Node`s.
"""

from .ref_lines import tokenize, is_ws, trim


class Node:
    __slots__ = ('kind', 'line', 'tok', 'key', 'value', 'conts', 'comments', 'children', 'parent',
                 'template', 'deep', 'end_line', 'body', 'level', 'source', 'implicit', 'uid',
                 'own_comments')

    def __init__(self, kind, line, tok, parent):
        self.kind = kind                 # document section empty field multiline fieldset list entry item
        self.line = line
        self.tok = tok
        self.key = tok.key if tok else None
        self.value = tok.value if tok else None
        self.conts = []                  # [(line, Tok)]
        self.comments = None             # [(line, Tok)] or None
        self.children = []               # entries, items or elements
        self.parent = parent
        self.template = None             # template *name*
        self.deep = False
        self.end_line = None             # multiline fields
        self.body = None                 # multiline fields: raw value
        self.level = 0
        self.source = None               # Node copied from
        self.implicit = None             # Node merged in because an enclosing section is deep copied
        self.uid = None

    def __repr__(self):
        return f"<{self.kind} {self.key!r} line {self.line}>"

    # ---- extent of what is written in the document (copied material is elsewhere)

    def last_line(self):
        if self.kind == 'multiline':
            return self.end_line
        if self.children:
            return self.children[-1].last_line()
        if self.conts:
            return self.conts[-1][0]
        return self.line


class Err:
    """One acceptable way to reject a document."""

    def __init__(self, kind, args, emphasized, indicated=(), questioned=(), selection=None, line=None):
        self.kind = kind
        self.args = tuple(args)
        self.emphasized = frozenset(emphasized)
        self.indicated = frozenset(indicated) - self.emphasized
        self.questioned = frozenset(questioned) - self.emphasized - self.indicated
        self.selection = selection       # ((line, column), (line, column))
        self.line = line

    def __repr__(self):
        return f"Err({self.kind}{self.args}, line={self.line})"


class Abort(Exception):
    pass


class Doc:
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.starts = []
        offset = 0
        for line in self.lines:
            self.starts.append(offset)
            offset += len(line) + 1
        self.root = Node('document', None, None, None)
        self.errors = []
        self.phase = None
        self.nodes = []                  # every node, in document order
        self.owner = {}                  # line -> (node, Tok or 'begin'/'end'/'value') for lines that carry something
        self.copies = False
        self.outside_model = None        # reason why the model has no opinion on copies
        try:
            self._analyze()
            self._resolve()
        except Abort:
            pass

    @property
    def ok(self):
        return not self.errors

    # ------------------------------------------------------------------ helpers

    def index(self, line, column):
        return self.starts[line] + column

    def whole(self, line):
        return ((line, 0), (line, len(self.lines[line])))

    def fail(self, phase, *errors):
        self.phase = phase
        self.errors = list(errors)
        raise Abort()

    # ------------------------------------------------------------------ structure

    def _analyze(self):
        depth = 0
        section = self.root
        continuable = None
        container = None                 # last element that could take entries or items
        pending = None
        at = 0
        count = len(self.lines)

        def reject(kind, line, args=None, indicated=(), selection=None):
            self.fail('analysis', Err(kind, [line + 1] if args is None else args, [line], indicated, (),
                                      selection or self.whole(line), line))

        while at < count:
            text = self.lines[at]
            tok = tokenize(text)
            kind = tok.kind
            node = None

            if kind == 'blank':
                pending = None

            elif kind == 'comment':
                if pending is None:
                    pending = []
                pending.append((at, tok))

            elif kind in ('direct', 'spaced'):
                if continuable is None:
                    reject('missing_element_for_continuation', at)
                if continuable.kind == 'empty':
                    continuable.kind = 'field'
                continuable.conts.append((at, tok))
                self.owner[at] = (continuable, tok)
                pending = None

            elif kind in ('element', 'field', 'copy'):
                node = Node('field' if kind == 'field' else 'empty', at, tok, section)
                if kind == 'copy':
                    node.template = tok.template
                section.children.append(node)
                continuable = None if kind == 'copy' else node
                container = node

            elif kind in ('entry', 'item'):
                wanted, missing = (('fieldset', 'missing_fieldset_for_fieldset_entry') if kind == 'entry'
                                   else ('list', 'missing_list_for_list_item'))
                if container is None or container.kind not in (wanted, 'empty'):
                    reject(missing, at)
                container.kind = wanted
                node = Node(kind, at, tok, container)
                container.children.append(node)
                continuable = node

            elif kind == 'section':
                if tok.level > depth + 1:
                    reject('section_hierarchy_layer_skip', at,
                           indicated=[] if section is self.root else [section.line])
                parent = section
                while parent.level >= tok.level:
                    parent = parent.parent
                node = Node('section', at, tok, parent)
                node.level = depth = tok.level
                node.template = tok.template
                node.deep = tok.deep
                parent.children.append(node)
                section = node
                continuable = container = None

            elif kind == 'multiline':
                end = at + 1
                while end < count:
                    stripped = trim(self.lines[end])
                    dashes = 0
                    while dashes < len(stripped) and stripped[dashes] == '-':
                        dashes += 1
                    if dashes == tok.level and trim(stripped[dashes:]) == tok.key:
                        break
                    end += 1
                if end >= count:
                    reject('unterminated_multiline_field', at, [tok.key, at + 1], indicated=range(at + 1, count))
                node = Node('multiline', at, tok, section)
                node.end_line = end
                node.body = '\n'.join(self.lines[at + 1:end]) if end > at + 1 else None
                section.children.append(node)
                continuable = container = None
                for line in range(at + 1, end):
                    self.owner[line] = (node, 'value')
                self.owner[end] = (node, 'end')

            elif kind == 'unterminated':
                reject('unterminated_escaped_key', at, selection=((at, tok.column), (at, len(text))))
            else:
                reject('invalid_line', at)

            if node is not None:
                node.comments = pending
                if pending:
                    for line, comment in pending:
                        self.owner[line] = (node, comment)
                pending = None
                node.uid = len(self.nodes)
                self.nodes.append(node)
                self.owner[at] = (node, tok)
                if node.kind == 'multiline':
                    at = node.end_line

            at += 1

        for node in self.nodes:
            node.own_comments = node.comments

    # ------------------------------------------------------------------ copying

    def _resolve(self):
        plain = [n for n in self.nodes if n.kind not in ('section', 'entry', 'item')]
        sections = [n for n in self.nodes if n.kind == 'section']
        copiers = [n for n in plain + sections if n.template is not None]
        if not copiers:
            return
        self.copies = True

        errors = []
        ambiguous = []
        for pool, what in ((plain, 'non_section_element_not_found'), (sections, 'section_not_found')):
            for name in dict.fromkeys(n.template for n in pool if n.template is not None):
                targets = [n for n in pool if n.template == name]
                found = [n for n in pool if n.key == name and n.template != name]
                if len(found) > 1:
                    # any two of the candidates may be shown as evidence, reported at any of the copies
                    for target in targets:
                        for i, one in enumerate(found):
                            for two in found[i + 1:]:
                                ambiguous.append(Err('two_or_more_templates_found', [name], [target.line], (),
                                                     [one.line, two.line], self.whole(target.line), target.line))
                elif not found:
                    for target in targets:
                        errors.append(Err(what, [target.line + 1, name], [target.line], (), (),
                                          self.whole(target.line), target.line))
                else:
                    for target in targets:
                        target.source = found[0]

        if ambiguous:
            self.fail('resolution', *(ambiguous + errors))

        # a section depends on its template and on everything inside it
        def depends(node):
            if node.kind == 'section':
                for child in node.children:
                    if child.kind == 'section':
                        yield child
            if node.source is not None:
                yield node.source

        component = strongly_connected([n for n in plain + sections], depends)
        for node in copiers:
            if node.source is None:
                continue
            members = component[node.uid]
            if len(members) > 1 and node.source.uid in members or node.source is node:
                lines = frozenset(members_line(self.nodes, members))
                begin, end = node.tok.spans['template']
                error = Err('cyclic_dependency', [node.line + 1, node.template], [node.line], lines, (),
                            ((node.line, begin), (node.line, end)), node.line)
                errors.append(error)

        # whatever already failed may be reported instead of a type conflict, so collect these too
        for node in plain:
            if node.source is None or node.kind == 'empty' or not node.children:
                continue
            kind = self.kind(node.source, guard=True)
            if kind in ('empty', node.kind, None):
                continue
            first = node.children[0]
            errors.append(Err('missing_fieldset_for_fieldset_entry' if node.kind == 'fieldset' else 'missing_list_for_list_item',
                              [first.line + 1], [first.line], (), (), self.whole(first.line), first.line))

        if errors:
            self.fail('resolution', *errors)

        self._merge(sections)

    def _merge(self, sections):
        """Deep copies: pair up the subsections of a section and its template, recursively."""
        deep = [n for n in sections if n.deep]
        if not deep:
            return

        done = set()

        def enclosing_deep(node):
            node = node.parent
            while node.kind == 'section':
                if node.deep:
                    return True
                node = node.parent
            return False

        for node in sections:
            # what such a template contains depends on a merge that may itself depend on it
            if node.source is not None and enclosing_deep(node.source) and (
                    node.deep or node.comments is None and node.source.comments is None):
                self.outside_model = 'a section inside a deep copy is copied by itself'

        def merge(section, template, origin):
            own = by_key(section.children)
            theirs = by_key(self.elements(template))
            for key, mine in own.items():
                other = theirs.get(key, [])
                if not (len(mine) == len(other) == 1 and mine[0].kind == other[0].kind == 'section'):
                    continue
                mine, other = mine[0], other[0]
                chain = other
                while chain is not None and chain is not mine:
                    chain = self.origin(chain)
                if chain is mine:
                    begin, end = origin.tok.spans['template']
                    self.fail('resolution', Err('cyclic_dependency', [origin.line + 1, origin.template], [origin.line],
                                                (), (), ((origin.line, begin), (origin.line, end)), origin.line))
                if mine.source is not None or mine.implicit is not None:
                    self.outside_model = 'a section with a template of its own is merged into by a deep copy'
                    continue
                mine.implicit = other
                merge(mine, other, origin)

        def settle(node):
            if node.uid in done:
                return
            done.add(node.uid)
            for child in node.children:
                if child.kind == 'section':
                    settle(child)
            if node.source is not None:
                settle(node.source)
                if node.deep:
                    merge(node, node.source, node)

        for node in sections:
            settle(node)

    # ------------------------------------------------------------------ effective content

    def origin(self, node):
        return node.source if node.source is not None else node.implicit

    def kind(self, node, guard=False, _seen=()):
        """The type an element has after copying ('multiline' only for an original multiline field)."""
        if node.kind == 'empty' and node.source is not None:
            if node.uid in _seen:
                return None
            kind = self.kind(node.source, guard, _seen + (node.uid,))
            return 'field' if kind == 'multiline' else kind
        return node.kind

    def copied(self, node):
        """An element without content of its own takes everything from its template."""
        return node.kind == 'empty' and node.source is not None

    def entries(self, node):
        if node.kind == 'empty':
            return self.entries(node.source) if node.source is not None else []
        if node.kind != 'fieldset':
            return []
        own = list(node.children)
        if node.source is None:
            return own
        overridden = {entry.key for entry in own}
        return [entry for entry in self.entries(node.source) if entry.key not in overridden] + own

    def items(self, node):
        if node.kind == 'empty':
            return self.items(node.source) if node.source is not None else []
        if node.kind != 'list':
            return []
        return (self.items(node.source) if node.source is not None else []) + list(node.children)

    def elements(self, node):
        own = list(node.children)
        origin = self.origin(node)
        if origin is None:
            return own
        overridden = {element.key for element in own}
        return [element for element in self.elements(origin) if element.key not in overridden] + own

    def value(self, node):
        if node.kind == 'multiline':
            return node.body
        if node.kind == 'empty':
            return self.value(node.source) if node.source is not None else None
        if node.kind not in ('field', 'entry', 'item'):
            return None
        return join_value(node.value, [tok for _, tok in node.conts])

    def comment_lines(self, node):
        if node.comments is not None:
            return node.comments
        origin = self.origin(node)
        return self.comment_lines(origin) if origin is not None else None

    def comment(self, node):
        lines = self.comment_lines(node)
        return None if lines is None else join_comments([(self.lines[line], tok) for line, tok in lines])

    def raw(self, node):
        result = {}
        kind = self.kind(node)
        result['type'] = {'document': 'document', 'section': 'section', 'empty': 'empty_element', 'field': 'field',
                          'multiline': 'field', 'fieldset': 'fieldset', 'list': 'list', 'entry': 'fieldset_entry',
                          'item': 'list_item'}[kind]
        if self.comment_lines(node) is not None:
            result['comment'] = self.comment(node)
        if kind not in ('document', 'item'):
            result['key'] = node.key
        if kind in ('field', 'multiline', 'entry', 'item'):
            result['value'] = self.value(node)
        if kind == 'list':
            result['items'] = [self.raw(item) for item in self.items(node)]
        if kind == 'fieldset':
            result['entries'] = [self.raw(entry) for entry in self.entries(node)]
        if kind in ('section', 'document'):
            result['elements'] = [self.raw(element) for element in self.elements(node)]
        return result


def by_key(nodes):
    result = {}
    for node in nodes:
        result.setdefault(node.key, []).append(node)
    return result


def members_line(nodes, members):
    return [nodes[uid].line for uid in members]


def strongly_connected(nodes, successors):
    """uid -> frozenset of uids of its strongly connected component (Floyd style, tiny graphs)."""
    reach = {}
    for node in nodes:
        seen = set()
        todo = [node]
        while todo:
            for nxt in successors(todo.pop()):
                if nxt.uid not in seen:
                    seen.add(nxt.uid)
                    todo.append(nxt)
        reach[node.uid] = seen
    result = {}
    for uid, seen in reach.items():
        result[uid] = frozenset({uid} | {other for other in seen if uid in reach[other]})
    return result


def join_value(first, continuations):
    """Field values: continuations append directly, or with one space if spaced; empty ones only count
    as spacing, and nothing precedes the first text."""
    value = first
    space = False
    for tok in continuations:
        if value is None:
            value = tok.value
            space = False
            continue
        space = space or tok.kind == 'spaced'
        if tok.value is not None:
            value += (' ' if space else '') + tok.value
            space = False
    return value


def join_comments(comments):
    """comments: [(line text, Tok)]. One comment is its text; several keep their relative indentation,
    with empty ones at both ends dropped."""
    if len(comments) == 1:
        return comments[0][1].value
    texts = []
    for line, tok in comments:
        if tok.value is None:
            texts.append(None)
        else:
            begin, end = tok.spans['comment']
            texts.append((begin, line[begin:end]))
    while texts and texts[0] is None:
        texts.pop(0)
    while texts and texts[-1] is None:
        texts.pop()
    if not texts:
        return None
    shared = min(text[0] for text in texts if text is not None)
    return '\n'.join('' if text is None else ' ' * (text[0] - shared) + text[1] for text in texts)
