"""What a report must show: which lines, how they are marked, in which order; and reading reports back."""

import html
import html.parser
import itertools
import re

from . import ref_errors
from .ref_doc import Err


def variants(err):
    """A cycle may be shown with any of its members (see ref_doc); everything else in one way only."""
    if err.kind != 'cyclic_dependency':
        return [err]
    members = sorted(err.indicated)
    return [Err(err.kind, err.args, err.emphasized, chosen, (), err.selection, err.line)
            for count in range(len(members), -1, -1) for chosen in itertools.combinations(members, count)]


def rows(doc, err):
    """[(line number or None, mark, content)]; an omission is (None, '...', '')."""
    return [(None, '...', '') if mark == '...' else (line + 1, mark, doc.lines[line]) for line, mark in ref_errors.marks(doc, err)]


def text_report(doc, err, locale, source):
    return ref_errors.text_snippet(doc, err, locale, source)


# ---------------------------------------------------------------------- terminal

SGR = re.compile('\x1b\\[([0-9;]*)m')


def terminal_report(doc, err, _locale, source):
    """Without styles."""
    width = max(4, len(str(len(doc.lines))))
    result = []
    if source:
        result.append(f' > {" " * width}  {source}')
    for number, mark, content in rows(doc, err):
        if mark == '...':
            result.append('...'.rjust(width + 2) + '  ')
        else:
            result.append(f' {mark} {str(number).rjust(width)}  {content}')
    return '\n'.join(result)


def terminal_plain(report):
    """(report without styles, problem with the styles)"""
    for index, line in enumerate(report.split('\n')):
        active = False
        for codes in SGR.findall(line):
            active = codes not in ('', '0')
        if active:
            return None, f'row {index} leaves a style switched on: {line!r}'
    return SGR.sub('', report), None


# ---------------------------------------------------------------------- html

VOID = set()


class _Reader(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tree = ('root', {}, [])
        self.stack = [self.tree]
        self.problem = None

    def handle_starttag(self, tag, attributes):
        node = (tag, dict(attributes), [])
        self.stack[-1][2].append(node)
        self.stack.append(node)

    def handle_endtag(self, tag):
        if len(self.stack) == 1 or self.stack[-1][0] != tag:
            self.problem = self.problem or f'</{tag}> closes nothing'
            return
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][2].append(data)

    def handle_comment(self, data):
        self.problem = 'a comment'

    handle_decl = unknown_decl = handle_pi = handle_comment


def text_of(node):
    return node if isinstance(node, str) else ''.join(text_of(part) for part in node[2])


def find(node, class_name):
    for part in node[2]:
        if not isinstance(part, str):
            if class_name in (part[1].get('class') or '').split():
                yield part
            yield from find(part, class_name)


MARK_CLASSES = {'eno-report-line-emphasized': '>', 'eno-report-line-indicated': '*', 'eno-report-line-questioned': '?'}


def html_rows(report):
    """(source or None, header (gutter, content), rows, problem)"""
    reader = _Reader()
    reader.feed(report)
    reader.close()
    if len(reader.stack) != 1:
        reader.problem = reader.problem or f'<{reader.stack[-1][0]}> is not closed'
    if reader.problem:
        return None, None, None, reader.problem
    elements = [part for part in reader.tree[2] if not isinstance(part, str)]
    if len(elements) != 1 or len(reader.tree[2]) != 1:
        return None, None, None, 'not a single element'
    top = elements[0]
    pre = [top] if top[0] == 'pre' else [part for part in top[2] if not isinstance(part, str) and part[0] == 'pre']
    if len(pre) != 1 or 'eno-report' not in (pre[0][1].get('class') or ''):
        return None, None, None, 'no report'
    source = None
    if len(top[2]) > 1 and top is not pre[0]:
        source = ''.join(text_of(part) for part in top[2] if part is not pre[0])
    stray = ''.join(part for part in pre[0][2] if isinstance(part, str))
    if stray.strip():
        return None, None, None, f'stray text {stray!r}'
    result = []
    for line in pre[0][2]:
        if isinstance(line, str):
            continue
        classes = (line[1].get('class') or '').split()
        gutter, content = list(find(line, 'eno-report-gutter')), list(find(line, 'eno-report-content'))
        if 'eno-report-line' not in classes or len(gutter) != 1 or len(content) != 1:
            return None, None, None, f'{line} is not a line of a report'
        if any(not isinstance(part, str) for part in gutter[0][2] + content[0][2]):
            return None, None, None, f'{line} contains markup'
        marks = [MARK_CLASSES[name] for name in classes if name in MARK_CLASSES]
        if len(marks) > 1 or any(name != 'eno-report-line' and name not in MARK_CLASSES for name in classes):
            return None, None, None, f'{line} is marked in several ways'
        result.append((text_of(gutter[0]).strip(), marks[0] if marks else ' ', text_of(content[0])))
    if not result:
        return None, None, None, 'no lines'
    return source, (result[0][0], result[0][2]), result[1:], None


CLASSES = {mark: name for name, mark in MARK_CLASSES.items()}
_compared = 0


def html_line(gutter, content, mark):
    return (f'<div class="eno-report-line {CLASSES.get(mark, "")}"><div class="eno-report-gutter">{gutter.rjust(10)}</div>'
            f'<div class="eno-report-content">{html.escape(content)}</div></div>')


def html_usual(doc, err, locale, source):
    """The report as it is usually written. Equal means right; different may still be right."""
    lines = [html_line('...', '...', ' ') if mark == '...' else html_line(str(number), content, mark) for number, mark, content in rows(doc, err)]
    report = f'<pre class="eno-report">{html_line(locale.gutter_header, locale.content_header, " ")}' + '\n'.join(lines) + '</pre>'
    return report if source is None else f'<div><div>{html.escape(source)}</div>{report}</div>'


def html_difference(doc, err, report, locale, source):
    global _compared
    _compared += 1
    if _compared % 64 and report == html_usual(doc, err, locale, source):
        return None
    got_source, header, got, problem = html_rows(report)
    if problem:
        return f'{problem}: {report}'
    if got_source != source:
        return f'source {got_source!r} instead of {source!r}'
    if header != (locale.gutter_header, locale.content_header):
        return f'headers {header}'
    expected = [('...', ' ', '...') if mark == '...' else (str(number), mark, content.replace('\r\n', '\n').replace('\r', '\n'))
                for number, mark, content in rows(doc, err)]
    got = [(number, mark, content.replace('\r\n', '\n').replace('\r', '\n')) for number, mark, content in got]
    if got != expected:
        return f'expected {expected}, got {got}'
    return None


def difference(reporter, doc, err, report, locale, source):
    """None if the report shows what it must."""
    first = None
    for variant in variants(err):
        if reporter == 'html':
            problem = html_difference(doc, variant, report, locale, source)
        else:
            got, problem = (report, None) if reporter == 'text' else terminal_plain(report)
            if problem is None:
                expected = (text_report if reporter == 'text' else terminal_report)(doc, variant, locale, source)
                problem = None if got == expected else f'expected\n{expected}\ngot\n{got}'
        if problem is None:
            return None
        first = first or problem
    return first
