"""Any text is either read or rejected with a ParseError; nothing else ever happens, whatever is asked of it."""

import sys

from .. import sut
from ..docprop import guarded, replayer
from ..explore import Report
from ..ref_doc import Doc
from ..spaces import rings

RULE = ('every text of the stated alphabets and lengths and every document of the stated line forms, with every reporter; what is '
        'accepted is asked everything there is to ask; no oracle but: only the errors of the library, a selection inside the document, '
        'and an answer in finite time; non-trivial: the text is accepted and has content')
MIN_OUTCOMES = 6
MESSAGE = 'message'
STRANGE = '\0\x0b\x0c\r\x1c\x85\u2028\u3000\ufeff\ud800\U0001f600\u0301a:\n'
CHARACTERS = range
if sut.LANGUAGE == 'js':                 # its strings consist of UTF-16 code units
    STRANGE = STRANGE.replace('\ud800', '').replace('\U0001f600', '')

    def CHARACTERS(end):
        return [code for code in range(min(end, 0x10000)) if not 0xd800 <= code < 0xe000]


def refuse(value):
    raise ValueError('no')


class Problem(Exception):
    pass


def sound(text, lines, starts, error, kinds=('validation',)):
    """The error can be shown to someone: texts are texts, and the selection lies in the document."""
    if error.type not in kinds:
        raise Problem(f'a {error.type} error')
    if not (isinstance(error.text, str) and isinstance(error.snippet, str) and error.message == f'{error.text}\n\n{error.snippet}'
            and error.string == error.message):
        raise Problem(f'{error!r} does not consist of text and snippet')
    ends = []
    for end in ('from', 'to'):
        at = error.selection[end]
        if not (0 <= at['line'] < len(lines) and 0 <= at['column'] <= len(lines[at['line']])):
            raise Problem(f'{error!r} selects {at}, which is not in the document')
        if at['index'] != starts[at['line']] + at['column']:
            raise Problem(f'{error!r} selects {at}, but the line starts at {starts[at["line"]]}')
        ends.append(at['index'])
    if ends[0] > ends[1] or error.cursor != error.selection['from']:
        raise Problem(f'{error!r} selects from {ends[0]} to {ends[1]} with cursor {error.cursor}')


def explore_element(element, report, check_error, depth=0):
    """Everything there is to ask of an element."""
    report.transitions += 1

    def ask(name, *arguments, may_fail=True):
        report.evaluations += 1
        got = sut.attempt(getattr(element, name), *arguments)
        if isinstance(got, sut.Error):
            got = sut.Rejected(got)
        if isinstance(got, sut.Rejected):
            if not may_fail:
                raise Problem(f'{name} of {element!r} is rejected: {got}')
            check_error(got)
            report.outcomes[got.kind] += 1
        return got

    missing = sut.attempt(element.raw) is None
    for name in ('raw', '__repr__'):
        ask(name, may_fail=False)
    for name in ('string_key', 'optional_string_comment', 'required_string_comment', 'optional_string_value', 'required_string_value',
                 'optional_string_values', 'required_string_values', 'length', 'parent'):
        if hasattr(element, name):
            ask(name, may_fail=missing or name.startswith('required'))
    for name in ('key', 'optional_comment', 'required_comment', 'optional_value', 'required_value', 'optional_values', 'required_values'):
        if hasattr(element, name):
            ask(name, refuse)
    if not missing:
        for name in ('error', 'key_error', 'comment_error', 'value_error'):
            if hasattr(element, name):
                ask(name, MESSAGE)
                ask(name, lambda _given: MESSAGE)
    if hasattr(element, 'to_field'):
        for name in ('to_empty', 'to_field', 'to_fieldset', 'to_list', 'to_section', 'to_fieldset_entry', 'to_list_item'):
            if hasattr(element, name) and hasattr(element, 'yields' + name[2:]):
                fits = ask('yields' + name[2:], may_fail=False)
                if not isinstance(fits, bool):
                    raise Problem(f'yields{name[2:]} gives {fits!r}')
                if not fits:
                    ask(name)
    if depth > 4:
        return

    keys = []
    for plural in ('elements', 'entries', 'items'):
        if hasattr(element, plural):
            for part in ask(plural, may_fail=False):
                if hasattr(part, 'to_field'):
                    fitting = [what for what in ('section', 'list', 'fieldset', 'field', 'empty') if getattr(part, 'yields_' + what)()]
                    if not fitting:
                        raise Problem(f'{part!r} is nothing')
                    explore_element(part, report, check_error, 9)
                    part = sut.attempt(getattr(part, 'to_' + fitting[0]))
                explore_element(part, report, check_error, depth + 1)
                if plural != 'items':
                    keys.append(sut.attempt(part.string_key))
    if hasattr(element, 'elements'):
        for name in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
            for flavour in ('', 'optional_', 'required_'):
                for key in list(dict.fromkeys(keys))[:2] + ['absent', None]:
                    try:
                        got = ask(flavour + name, key)
                    except sut.Crash as crash:
                        if isinstance(crash.__cause__, TypeError) and 'yielded' in str(crash):
                            continue     # it was used as something else above
                        raise
                    if key == 'absent' and flavour == '' and depth == 0 and not missing and not isinstance(got, sut.Rejected):
                        explore_element(got, report, check_error, 9)
        for name in ('fields', 'fieldsets', 'lists', 'sections'):
            try:
                ask(name)
            except sut.Crash as crash:
                if not isinstance(crash.__cause__, TypeError):
                    raise
        if not missing:
            ask('assert_all_touched')
            ask('touch', may_fail=False)
            untouched = ask('assert_all_touched')
            if untouched is not None:
                raise Problem(f'touch() leaves something untouched: {untouched}')
            ask('all_elements_required', may_fail=False)
            ask('all_elements_required', False, may_fail=False)
    elif hasattr(element, 'entries'):
        for flavour in ('', 'optional_', 'required_'):
            for key in keys[:2] + ['absent', None]:
                ask(flavour + 'entry', key)
        if not missing:
            ask('assert_all_touched')
            ask('touch', may_fail=False)
            ask('all_entries_required', may_fail=False)
            ask('all_entries_required', False, may_fail=False)
    elif not missing and hasattr(element, 'touch'):
        ask('touch', may_fail=False)


def checker(reporters, deep=True, look=False):
    @guarded
    def check(text, doc, report):
        lines = doc.lines
        starts = doc.starts
        for name in reporters:
            report.evaluations += 1
            got = sut.load(text, reporter=sut.REPORTERS[name])
            try:
                if isinstance(got, sut.Rejected):
                    report.outcomes[got.kind] += 1
                    report.state(('rejected', got.kind, got.args))
                    sound(text, lines, starts, got, ('parse',))
                elif deep:
                    raw = sut.attempt(got.raw)
                    report.state(raw)
                    report.outcomes['accepted'] += 1
                    report.nontrivial += bool(raw['elements'])
                    if report.nontrivial % 9973 == 3:
                        report.sample({'text': text})
                    explore_element(got, report, lambda error: sound(text, lines, starts, error))
                else:
                    report.outcomes['accepted'] += 1
                    sut.attempt(got.raw)
            except Problem as problem:
                return report.violation({'text': text}, f'{text!r} with the {name} reporter: {problem}')
        if look:
            for index in range(len(text) + 1):
                report.evaluations += 1
                found = sut.attempt(sut.lookup, text, index=index)
                if isinstance(found, sut.Rejected):
                    break
                sut.attempt(found['element'].raw)
    return check


def run(session):
    more = session.pick(0, 1)
    every = ('text', 'html', 'terminal')
    check = checker(('text',))
    session.explore_strings('texts', 'a:=-<>|#`\n ', 5 + more, checker(('text',), deep=False))
    session.explore_strings('short texts, asked everything', 'a:=-<>|\\#`\n \t', 4 + more, checker(every, look=True))
    session.explore_strings('nothing but operators', ':=-<>|\\#`', 5 + more, checker(('text',), deep=False), prefix='a:\n')
    session.explore_strings('line breaks and dashes', '-\na', 9 + more, checker(('text',), deep=False))
    session.explore_strings('sections and copies', '#<a\n ', 6 + more, checker(('text',), deep=False))
    session.explore_strings('strange characters', STRANGE, 3 + more, checker(every, look=True))
    session.explore_lines('all line forms', ['a:', 'b: v', '| w', '\\ w', '-', '- i', 'k =', 'k = e', '-- a', '--', '# s', '## t', '> c', '', 'c < a', '# u << s', '`', '?'],
                          3 + more, check, prune=False)
    session.explore_lines('all line forms, every reporter', ['a:', 'b: v', '- i', 'k =', '-- a\nx\n-- a', '-- b', '# s', '> c', '', 'c < a', '# u < s', '?'], 2 + more, checker(every, look=True), prune=False)
    session.explore_lines('copies of copies', ['a:', 'a < b', 'b < a', 'b < c', 'c < a', '- i', 'k = e', '# a', '# b << a', '# c < b'], 4 + more, checker(('text',), deep=False))
    session.explore_lines('nested copies', ['# a < b', '# b << c', '# c', '## a', '## b < a', '## c << b', '### a'], 4 + more, checker(('text',), deep=False))

    def graph(text, report):
        quick(text, Doc(text), report)
    quick = checker(('text',), deep=False)
    names = 'abcdef'[:5 + more]
    for name, element, copies in (('copies', '{}: v', ['{} < {}']), ('copied fieldsets', '{}:\nk = v', ['{} < {}\nl = w']),
                                  ('copied sections', '# {}\nx: v', ['# {} < {}']), ('deep copies', '# {}\n## s', ['# {} << {}\n## s'])):
        session.explore_cases('all graphs of ' + name, list(rings(names, element, copies)), graph, chunks=256)

    def characters(code, report):
        for form in ('@', 'a@', '@:', 'a:@', 'a: @b', 'a:\n@', '# @', '-- @\n@\n-- @', '> @\n@a: b'):
            text = form.replace('@', chr(code))
            checker(('text',), deep=False)(text, Doc(text), report)
    session.explore_cases('every character', CHARACTERS(session.pick(0x800, 0x110000)), characters, chunks=256)

    kinds = ['fields', 'items', 'continuations', 'key', 'value', 'comment', 'spaces', 'ticks', 'unclosed', 'dashes']
    session.explore_cases('long texts', [{'long': kind, 'count': count} for kind in kinds for count in (50, 300, 2000)]
                          + [{'long': kind, 'count': count} for kind in CHAINS for count in (50, 100, 200, 2000)], long)


CHAINS = ('nesting', 'copies', 'copies upwards', 'lists upwards', 'sections upwards')


def long_text(kind, count):
    chain = range(1, count)
    return {'fields': 'a: b\n' * count, 'items': 'a:\n' + '- i\n' * count, 'continuations': 'a:\n' + '| i\n' * count, 'key': 'a' * count + ': b',
            'value': 'a: ' + 'b ' * count, 'comment': '> c\n' * count + 'a:', 'spaces': ' ' * count + '\n' * count,
            'ticks': '`' * count + 'a' + '`' * count + ':', 'unclosed': '`' * count + 'a' + '`' * (count - 1) + ':',
            'dashes': '-' * count + ' a\n' + '-' * count + ' a',
            'nesting': '\n'.join('#' * i + ' s' for i in chain) if kind == 'nesting' else '',
            'copies': 'a0: v\n' + '\n'.join(f'a{i} < a{i - 1}' for i in chain),
            'copies upwards': '\n'.join(f'a{i} < a{i - 1}' for i in reversed(chain)) + '\na0: v',
            'lists upwards': '\n'.join(f'a{i} < a{i - 1}\n- w' for i in reversed(chain)) + '\na0:\n- v',
            'sections upwards': '\n'.join(f'# a{i} < a{i - 1}\nb{i}: w' for i in reversed(chain)) + '\n# a0\nc: v'}[kind]


def long(case, report):
    """With the usual recursion limit, as callers have it."""
    text = long_text(case['long'], case['count'])
    report.evaluations += 1
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        got = sut.load(text)
        if not isinstance(got, sut.Rejected):
            sut.attempt(sut.quiet, got, 'raw')
        report.outcomes['long text ' + ('rejected' if isinstance(got, sut.Rejected) else 'accepted')] += 1
    except sut.Crash as crash:
        report.violation(case, f'{case}: {crash}')
    finally:
        sys.setrecursionlimit(limit)


def replay(case):
    if 'long' in case:
        report = Report()
        long(case, report)
        return report.violations[0]['message'] if report.violations else None
    return replayer(checker(('text', 'html', 'terminal'), look=True))(case)
