"""The Python and the JavaScript library give the same answers."""

import html
import importlib
import itertools
import re

from .. import explore as exploration
from .. import sut
from ..docprop import replayer
from ..explore import Report
from ..js import bridge
from ..walk import form

RULE = ('every document of the stated line forms, and every text of the stated characters; read by both libraries, and both asked the '
        'same of every element, section by section, and of every position; non-trivial: the document is accepted and has content')
ASSUMPTIONS = ['the bridge passes requests and answers unchanged, but for the names',
               'characters outside the BMP, and those that count as whitespace in one of the languages only, are left out']
MIN_OUTCOMES = 6

KINDS = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
MESSAGE = 'my message'


def refuse(value):
    raise ValueError(f'not {value}')


def answer(function, *arguments, **options):
    """What can be seen of the answer to a request, and the answer itself."""
    try:
        got = sut.attempt(function, *arguments, **options)
    except sut.Crash as crash:
        got = crash.__cause__
        if isinstance(got, TypeError):
            return 'in use as something else', None
        if isinstance(got, IndexError):
            return 'outside', None
        if not isinstance(got, bridge.Error):
            raise
        return ('raised', plain(got)), None
    if isinstance(got, sut.Rejected):
        return ('raised', plain(got)), None
    return plain(got), got


def plain(got):
    if isinstance(got, (sut.Error, bridge.Error, sut.Rejected)):
        kind = getattr(got, 'type', None) or ('parse' if isinstance(got, (sut.ParseError, bridge.ParseError)) else 'validation')
        ends = [[got.selection[end][part] for part in ('line', 'column', 'index')] for end in ('from', 'to')]
        return [kind, got.text, content(got.snippet), ends, got.cursor == got.selection['from']]
    if isinstance(got, (list, tuple)):
        return [plain(part) for part in got]
    if isinstance(got, dict):
        return {key: plain(part) for key, part in sorted(got.items())}
    if hasattr(got, 'raw'):
        return [form(got), got.raw()]
    return got


def content(snippet):
    """The snippet, but of one in HTML or for terminals what is in it, since the libraries lay that out differently."""
    if snippet and '\x1b' in snippet:
        return re.sub('\x1b\\[\\d+m', '', snippet)
    if not snippet or not snippet.startswith('<'):
        return snippet
    found = re.findall('<[a-z]+(?: class="([^"]*)")?>([^<]*)', snippet)
    return [(name.strip(), html.unescape(text).strip('\n')) for name, text in found if name or text.strip('\n')]


class Difference(Exception):
    pass


class Pair:
    """Both libraries, or an element of each of them."""

    def __init__(self, python, javascript, what, report):
        self.two, self.what, self.report = (python, javascript), what, report

    def ask(self, name, *arguments, **options):
        """The pair of answers, if they have something in common to ask further."""
        self.report.evaluations += 1
        self.report.transitions += 1
        what = f'{self.what}{name}({", ".join(repr(a) if not callable(a) else a.__name__ for a in arguments)})'
        (one, python), (two, javascript) = [answer(getattr(element, name), *arguments, **options) for element in self.two]
        if one != two:
            raise Difference(f'{what} gives {one} in Python and {two} in JavaScript')
        self.report.outcomes[outcome(one)] += 1
        return None if python is None else Pair(python, javascript, what + '.', self.report)

    def offers(self, name):
        one, two = (hasattr(element, name) for element in self.two)
        if one != two:
            raise Difference(f'{self.what}{name} is offered by {"Python" if one else "JavaScript"} alone')
        return one

    def parts(self):
        return [Pair(one, two, f'{self.what}[{index}].', self.report) for index, (one, two) in enumerate(zip(*self.two))]


def outcome(seen):
    if isinstance(seen, tuple):
        return f'{seen[0]} {seen[1][0]} error'
    if isinstance(seen, list) and len(seen) == 5 and isinstance(seen[3], list):
        return 'an error as answer'
    if isinstance(seen, list) and len(seen) == 2 and isinstance(seen[0], str) and (seen[1] is None or isinstance(seen[1], dict)):
        return seen[0]
    return type(seen).__name__ if seen != 'in use as something else' else seen


def explore(pair, depth=0):
    """Everything there is to ask."""
    for name in ('string_key', 'optional_string_comment', 'required_string_comment', 'optional_string_value', 'required_string_value',
                 'optional_string_values', 'required_string_values', 'length', 'parent', 'yields_empty', 'yields_field', 'yields_fieldset',
                 'yields_list', 'yields_section', 'yields_fieldset_entry', 'yields_list_item'):
        if pair.offers(name):
            pair.ask(name)
    for name in ('key', 'optional_comment', 'required_comment', 'optional_value', 'required_value', 'optional_values', 'required_values'):
        if pair.offers(name):
            pair.ask(name, refuse)
    for name in ('error', 'key_error', 'comment_error', 'value_error'):
        if pair.offers(name):
            pair.ask(name, MESSAGE)
    if depth > 3:
        return
    if pair.offers('elements'):
        keys = list(dict.fromkeys(part.string_key() for part in pair.two[0].elements()))
        for key in keys + ['absent', None]:
            for kind in KINDS:
                for flavour in ('{}', 'optional_{}', 'required_{}', '{}s'):
                    if pair.offers(flavour.format(kind)):
                        found = pair.ask(flavour.format(kind), key)
                        if key == 'absent' and flavour == '{}' and found and depth < 2:
                            explore(found, depth + 2)
        for part in pair.ask('elements').parts():
            explore(part, depth + 1)
    elif pair.offers('entries'):
        keys = list(dict.fromkeys(part.string_key() for part in pair.two[0].entries()))
        for key in keys + ['absent', None]:
            for flavour in ('entry', 'optional_entry', 'required_entry', 'entries'):
                pair.ask(flavour, key)
        for part in pair.ask('entries').parts():
            explore(part, depth + 1)
    elif pair.offers('items'):
        for part in pair.ask('items').parts():
            explore(part, depth + 1)
    elif pair.offers('to_field'):
        for kind in ('section', 'list', 'fieldset', 'field', 'empty'):
            found = pair.ask('to_' + kind)
            if found and pair.two[0].raw() is not None:
                explore(found, depth)
    if pair.offers('assert_all_touched'):
        pair.ask('assert_all_touched')


INSIDE = {'fieldset': 'entries', 'list': 'items', 'section': 'elements'}


def skim(pair):
    """What there is inside of everything."""
    for part in pair.ask('elements').parts():
        kind = part.two[0].raw()['type']
        if kind in INSIDE:
            inside = part.ask('to_' + kind)
            if kind == 'section':
                skim(inside)
            else:
                inside.ask(INSIDE[kind])


def untouched(text, report, options):
    """What is said to be untouched after one request for every element at the top."""
    counts = [len(document.elements()) for document in (sut.parse(text), bridge.parse(text))]
    for index in range(min(counts)):
        for name in ('touch', 'to_field', 'to_fieldset', 'to_list', 'to_section', 'string_key'):
            documents = Pair(sut.parse(text, **options[0]), bridge.parse(text, **options[1]), f'{name} of element {index}, then ', report)
            parts = Pair(*[document.elements()[index] for document in documents.two], f'[{index}].', report)
            parts.ask(name)
            documents.ask('assert_all_touched')
            documents.ask('assert_all_touched', MESSAGE)


def read(text, report, how):
    options = [dict(locale=library.LOCALES[how[0]] if library is sut else getattr(library, how[0]), source='the source' if how[1] != 'html' else None,
                    reporter=sut.REPORTERS[how[1]] if library is sut else how[1]) for library in (sut, bridge)]
    report.evaluations += 1
    (one, python), (two, javascript) = [answer(library.parse, text, **given) for library, given in zip((sut, bridge), options)]
    if one != two:
        raise Difference(f'reading gives {one} in Python and {two} in JavaScript')
    report.outcomes[outcome(one)] += 1
    return (None if python is None else Pair(python, javascript, '', report)), options


def positions(text, report):
    libraries = Pair(sut, bridge, '', report)
    for index in range(-1, len(text) + 2):
        libraries.ask('lookup', text, index=index)
    for line, content in enumerate(text.split('\n') + ['']):
        for column in range(len(content) + 1):
            libraries.ask('lookup', text, line=line, column=column)


def checker(*hows, ask=True):
    def check(text, doc, report):
        if STRANGE.search(text):
            return
        try:
            for how in hows:
                pair, options = read(text, report, how)
                if pair is None:
                    continue
                if how == hows[0]:
                    report.nontrivial += bool(pair.two[0].elements())
                    report.state(pair.two[0].raw())
                    if report.nontrivial % 499 == 1:
                        report.sample({'document': text})
                if ask:
                    explore(pair)
                else:
                    skim(pair)
            if ask and pair is not None:
                untouched(text, report, options)
                positions(text, report)
        except Difference as difference:
            report.violation({'text': text}, f'{text!r}: {difference}')
        except sut.Crash as crash:
            report.violation({'text': text}, f'{text!r}: {crash}')
    return check


TEXT, HTML, TERMINAL = ('en', 'text'), ('de', 'html'), ('es', 'terminal')
everything = checker(TEXT, HTML, TERMINAL)
plainly = checker(TEXT)
reading = checker(TEXT, ask=False)


def messages(case, report):
    language, name, arguments = case['language'], case['name'], case['arguments']
    report.evaluations += 1
    found = []
    for catalog in (sut.LOCALES[language], getattr(bridge, language)):
        message = getattr(catalog, name, None)
        found.append(message(*arguments) if callable(message) and arguments else message if isinstance(message, str) else None)
    report.outcomes['a message' if found[0] else 'no message'] += 1
    report.nontrivial += 1
    if found[0] != found[1]:
        report.violation(case, f'{name} in {language} with {arguments} is {found[0]!r} in Python and {found[1]!r} in JavaScript')


def catalogs():
    for language in ('en', 'de', 'es'):
        one, two = sut.catalog(sut.LOCALES[language]), sut.catalog(getattr(bridge, language))
        for name in sorted(set(one) | set(two)):
            message = one.get(name)
            count = message.__code__.co_argcount if callable(message) else 0
            for arguments in itertools.product(['key', '', '7', '$& {0} %s <b>'], repeat=count):
                yield {'language': language, 'name': name, 'arguments': list(arguments)}


def replay(case):
    if 'text' in case:
        return replayer(everything)(case) or replayer(reading)(case)
    report = Report()
    messages(case, report)
    return report.violations[0]['message'] if report.violations else None


STRANGE = re.compile('[\x1c-\x1f\x85\u180e\ufeff\U00010000-\U0010ffff]')      # see ASSUMPTIONS
FORMS = ['a: v', 'a:', '`b` : w', '- i', '-', 'k = e', '> c', '', '| d', '\\ s', '# s', '## t', '-- m', 'b < a', '# u < s', '# u << s', '`x', 'k =']


class Borrowed(exploration.Session):
    """A session that explores the spaces of another check, cut down to a number of documents, with the check of this one."""

    def __init__(self, session, name, check, limit):
        super().__init__(session.property, 'quick', session.seed)
        self.name, self.check, self.limit, self.seen = name, check, limit, set()

    def bound(self, text):
        super().bound(f'as {self.name}: {text}')

    def fit(self, choices, depth):
        while depth > 1 and choices ** depth > self.limit:
            depth -= 1
        return depth

    def new(self, *space):
        known = space in self.seen
        self.seen.add(space)
        return not known

    def explore_lines(self, name, alphabet, depth, check, prefix='', **options):
        depth = self.fit(len(set(alphabet)), depth)
        if self.new(tuple(alphabet), depth, prefix):
            super().explore_lines(name, alphabet, depth, self.check, prefix=prefix)

    def explore_strings(self, name, alphabet, length, check, prefix='', suffix=''):
        length = self.fit(len(alphabet), length)
        if self.new(alphabet, length, prefix, suffix):
            super().explore_strings(name, alphabet, length, self.check, prefix=prefix, suffix=suffix)

    def explore_cases(self, name, cases, check, chunks=64):
        texts = dict.fromkeys(filter(None, map(text_of, cases)))
        if texts:
            super().explore_cases(name, texts, on_text(self.check), chunks)


def text_of(case):
    if isinstance(case, str):
        return case
    if isinstance(case, tuple) and len(case) == 2 and all(isinstance(part, str) for part in case) and '@' in case[1]:
        return case[1].replace('@', case[0])


def on_text(check):
    def run(text, report):
        if not STRANGE.search(text):
            check(text, None, report)
    return run


def borrow(session, names, check, limit):
    for name in names:
        if session.enough:
            return
        part = Borrowed(session, name, check, limit)
        importlib.import_module(f'mc.props.{name}').run(part)
        session.bounds += part.bounds
        session.report.merge(part.report)
        print(f'  spaces of {name}: {part.report.evaluations} executions, {exploration.time.time() - part.started:.1f} s', flush=True)


def run(session):
    more = session.pick(0, 1)
    session.explore_cases('every message in every language', list(catalogs()), messages)
    session.explore_lines('all line forms', FORMS, 2, everything)
    session.explore_lines('all line forms, in text', FORMS, 3 + more, plainly)
    session.explore_lines('content', ['a:', '- i', 'k = e', '| d', '> c', '', 'b < a'], 4 + more, plainly)
    session.explore_lines('sections', ['# s', '## s', '### s', 'a: v', '# u < s', '## s << u', '> c'], 4 + more, plainly)
    session.explore_lines('levels', ['#' * level + ' s' for level in range(1, 7)], 6 + more, reading)
    session.explore_lines('extended elements', ['a:', '- i', 'k = e', 'l = f', 'b < a', '> c', 'c < b'], 5 + more, reading)
    session.explore_strings('reading texts', 'a:`-<#> \n|', 4 + more, reading)
    borrow(session, ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12'], reading, session.pick(40000, 400000))
    borrow(session, ['P14', 'P15', 'P16', 'P17', 'P20', 'P21', 'P26', 'P28'], plainly, session.pick(1000, 20000))
