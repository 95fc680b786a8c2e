"""Reference model, layer 1: what one line of an eno document means.

Written by hand from the language description, without regular expressions and without
looking at how the implementation matches lines, so that it can serve as an independent oracle.

tokenize(line) -> Tok.  A Tok has a `kind`, the payload of the line and `spans`, the half open
column ranges of every token on the line.

kinds: blank, comment, direct, spaced, item, multiline, section, element, field, entry, copy,
       invalid, unterminated
"""

import os
from functools import lru_cache


class Tok:
    __slots__ = ('kind', 'key', 'value', 'template', 'level', 'deep', 'spans', 'column')

    def __init__(self, kind, **payload):
        self.kind = kind
        self.key = payload.get('key')
        self.value = payload.get('value')
        self.template = payload.get('template')
        self.level = payload.get('level')
        self.deep = payload.get('deep', False)
        self.spans = payload.get('spans') or {}
        self.column = payload.get('column')

    def __repr__(self):
        return f"Tok({self.kind}, key={self.key!r}, value={self.value!r}, template={self.template!r}, level={self.level}, deep={self.deep})"


if os.environ.get('VERIF_LANGUAGE', 'python') == 'python':
    def is_ws(char):
        """Whitespace inside a line: everything unicode calls space (a line never contains '\\n')."""
        return char.isspace()
else:
    def is_ws(char):
        """Whitespace inside a line as ECMAScript defines it."""
        return char == '\ufeff' or char.isspace() and char not in '\x1c\x1d\x1e\x1f\x85'


def trim(text):
    begin = skip_ws(text, 0)
    return text[begin:rstrip_end(text, begin, len(text))]


def skip_ws(line, index):
    while index < len(line) and is_ws(line[index]):
        index += 1
    return index


def rstrip_end(line, begin, end):
    while end > begin and is_ws(line[end - 1]):
        end -= 1
    return end


def run_of(line, index, char):
    count = 0
    while index + count < len(line) and line[index + count] == char:
        count += 1
    return count


def tail(line, index):
    """Trimmed rest of a line from index: (value, begin, end) or (None, None, None)."""
    begin = skip_ws(line, index)
    end = rstrip_end(line, begin, len(line))
    if begin == end:
        return None, None, None
    return line[begin:end], begin, end


def with_tail(kind, operator_name, value_name, line, at, length=1):
    spans = {operator_name: (at, at + length)}
    value, begin, end = tail(line, at + length)
    if value is not None:
        spans[value_name] = (begin, end)
    return Tok(kind, value=value, spans=spans)


def escaped_candidates(line, index):
    """All readings of an escaped key starting at index: yields (key, spans, index after it).

    The escape sequence is closed by the first run of as many backticks that leaves something
    meaningful behind it, hence several candidates, nearest first."""
    ticks = run_of(line, index, '`')
    fence = '`' * ticks
    content = skip_ws(line, index + ticks)
    if content >= len(line):
        return
    close = content + 1  # the key has at least one character
    while True:
        close = line.find(fence, close)
        if close == -1:
            return
        end = rstrip_end(line, content, close)
        yield (
            line[content:end],
            {
                'escape_begin_operator': (index, index + ticks),
                'key': (content, end),
                'escape_end_operator': (close, close + ticks),
            },
            close + ticks,
        )
        close += 1


def section_remainder(line, index):
    """What may follow a section key. Returns (ok, template, deep, spans)."""
    index = skip_ws(line, index)
    if index == len(line):
        return True, None, False, {}
    if line[index] != '<':
        return False, None, False, {}
    deep = line.startswith('<<', index)
    after = index + (2 if deep else 1)
    template, begin, end = tail(line, after)
    if template is None:
        return False, None, False, {}
    return True, template, deep, {
        'deep_copy_operator' if deep else 'copy_operator': (index, after),
        'template': (begin, end),
    }


def late_remainder(line, index):
    """What may follow an element key: Tok without key, or None."""
    index = skip_ws(line, index)
    if index == len(line):
        return None
    operator = line[index]
    if operator == ':':
        tok = with_tail('field', 'element_operator', 'value', line, index)
        if tok.value is None:
            tok.kind = 'element'
        return tok
    if operator == '=':
        return with_tail('entry', 'entry_operator', 'value', line, index)
    if operator == '<':
        template, begin, end = tail(line, index + 1)
        if template is None:
            return None
        return Tok('copy', template=template, spans={'copy_operator': (index, index + 1), 'template': (begin, end)})
    return None


@lru_cache(maxsize=1 << 17)
def tokenize(line):
    first = skip_ws(line, 0)

    if first == len(line):
        return Tok('blank')

    char = line[first]

    if char == '|':
        return with_tail('direct', 'direct_line_continuation_operator', 'value', line, first)
    if char == '\\':
        return with_tail('spaced', 'spaced_line_continuation_operator', 'value', line, first)
    if char == '>':
        return with_tail('comment', 'comment_operator', 'comment', line, first)

    if char == '-':
        dashes = run_of(line, first, '-')
        if dashes == 1:
            return with_tail('item', 'item_operator', 'value', line, first)
        key, begin, end = tail(line, first + dashes)
        if key is None:
            return bad(line)
        return Tok('multiline', key=key, level=dashes,
                   spans={'multiline_field_operator': (first, first + dashes), 'key': (begin, end)})

    if char == '#':
        level = run_of(line, first, '#')
        spans = {'section_operator': (first, first + level)}
        begin = skip_ws(line, first + level)
        if begin == len(line) or line[begin] == '<':
            return bad(line)
        if line[begin] == '`':
            for key, key_spans, after in escaped_candidates(line, begin):
                ok, template, deep, copy_spans = section_remainder(line, after)
                if ok:
                    return Tok('section', key=key, level=level, template=template, deep=deep,
                               spans={**spans, **key_spans, **copy_spans})
            return bad(line)
        end = line.find('<', begin)
        if end == -1:
            end = len(line)
        key_end = rstrip_end(line, begin, end)
        ok, template, deep, copy_spans = section_remainder(line, key_end)
        if not ok:
            return bad(line)
        return Tok('section', key=line[begin:key_end], level=level, template=template, deep=deep,
                   spans={**spans, 'key': (begin, key_end), **copy_spans})

    if char == '`':
        for key, key_spans, after in escaped_candidates(line, first):
            tok = late_remainder(line, after)
            if tok is not None:
                tok.key = key
                tok.spans = {**key_spans, **tok.spans}
                return tok
        return bad(line)

    if char in ':=<':
        return bad(line)

    end = first
    while end < len(line) and line[end] not in ':=<':
        end += 1
    key_end = rstrip_end(line, first, end)
    tok = late_remainder(line, end) if end < len(line) else None
    if tok is None:
        return bad(line)
    tok.key = line[first:key_end]
    tok.spans = {'key': (first, key_end), **tok.spans}
    return tok


def bad(line):
    """A line that fits no pattern; tells the two reasons apart."""
    index = skip_ws(line, 0)
    index += run_of(line, index, '#')
    index = skip_ws(line, index)
    ticks = run_of(line, index, '`')
    rest = line[index + ticks:]
    if ticks and rest and '`' * ticks not in rest:
        return Tok('unterminated', column=index + ticks)
    return Tok('invalid')
