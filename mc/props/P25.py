"""Every message is worded as in the official catalog of its language."""

import itertools
import os
import re

from .. import ref_errors, sut
from ..docprop import guarded
from ..explore import Report
from ..faults import faults
from ..ref_doc import Doc

RULE = ('every message of the catalog in every language with every combination of the stated arguments; and every error of every '
        'document of the stated line forms in every language, its wording and the headers of its report compared with the catalog; '
        'non-trivial: the message has arguments')
MIN_OUTCOMES = 30
ASSUMPTIONS = ['the official catalog is locales/specification.eno with the translations in locales/translations/*.po']

FOLDER = os.path.join(sut.REPO, 'locales')


def catalog():
    """(name -> (argument names, english text), language code -> english text -> translation), read with the reference model."""
    with open(os.path.join(FOLDER, 'specification.eno'), encoding='utf-8') as file:
        doc = Doc(file.read())
    if not doc.ok:
        raise RuntimeError(f'the catalog cannot be read: {doc.errors}')
    top = {section.key: section for section in doc.root.children}
    messages = {}
    for group in top['Messages'].children:
        if group.key == 'Terminology':
            continue
        for entry in group.children:
            name = re.sub('[ -]', '_', entry.key.lower())
            if doc.kind(entry) == 'fieldset':
                only, = entry.children
                messages[name] = ([argument.strip() for argument in only.key.split(',')], doc.value(only))
            else:
                messages[name] = ([], doc.value(entry))
    languages = {}
    for language in top['Locales'].children:
        with open(os.path.join(FOLDER, 'translations', language.key + '.po'), encoding='utf-8') as file:
            pairs = re.findall(r'^msgid "(.*)"\nmsgstr "(.*)"$', file.read(), re.MULTILINE)
        languages[language.key] = {one.replace('\\"', '"'): two.replace('\\"', '"') for one, two in pairs}
    return messages, languages


MESSAGES, LANGUAGES = catalog()


def wording(language, name, arguments):
    names, english = MESSAGES[name]
    text = LANGUAGES[language][english]
    # all at once, so that an argument that looks like a placeholder is left alone
    return re.sub(r'\[([A-Z]+)\]', lambda match: str(arguments[names.index(match.group(1))]) if match.group(1) in names else match.group(0), text)


ARGUMENTS = ['a', '', 'two words', '{0}', '{key}', '%s', "it's", '"', '\\', '[KEY]', 'ä\u2028', '<b>', 7, 100000]


def check_message(case, report):
    language, name, arguments = case
    report.evaluations += 1
    report.nontrivial += bool(arguments)
    report.outcomes[name] += 1
    locale = sut.LOCALES[language]
    if not hasattr(locale, name):
        return report.violation(case, f'{language} has no message {name}')
    message = getattr(locale, name)
    got = sut.attempt(message, *arguments) if callable(message) else message
    expected = wording(language, name, arguments)
    report.state((language, name))
    if callable(message) is not bool(MESSAGES[name][0]) or got != expected:
        report.violation(case, f'{language}, {name}{tuple(arguments)}: expected {expected!r}, got {got!r}')


def check_names(language, report):
    report.evaluations += 1
    report.outcomes['names'] += 1
    have = set(sut.catalog(sut.LOCALES[language]))
    want = set(MESSAGES)
    if have != want:
        report.violation(['names', language], f'{language}: {sorted(want - have)} missing, {sorted(have - want)} not in the catalog')


def expected_text(language, err):
    if err.kind is None:
        return err.args[0]
    return wording(language, err.kind, list(err.args))


def checker(languages):
    @guarded
    def check(text, doc, report):
        if doc.outside_model:
            return
        for language in languages:
            locale = sut.LOCALES[language]
            if not doc.ok:
                compare(report, text, 'parsing', language, doc.errors, sut.load(text, locale=locale))
            else:
                seen = set()
                for fault in faults(doc, callables=False):
                    kind = (fault.errors[0].kind, fault.call[0].split('_')[0])
                    if kind in seen:
                        continue
                    seen.add(kind)
                    got, _ = fault.perform(doc, text, locale=locale)
                    compare(report, text, repr(fault), language, fault.errors, got)
                    if report.violations:
                        return

    def compare(report, text, label, language, errors, got):
        report.evaluations += 1
        report.nontrivial += bool(errors[0].args)
        report.state((language, errors[0].kind, errors[0].args))
        report.outcomes[errors[0].kind or 'custom'] += 1
        if not isinstance(got, sut.Rejected):
            return report.violation({'text': text}, f'{text!r}: {label} in {language}: expected {errors}, got {got!r}')
        texts = [expected_text(language, err) for err in errors]
        if got.text not in texts:
            return report.violation({'text': text}, f'{text!r}: {label} in {language}: expected {texts}, got {got.text!r}')
        head = got.snippet.split('\n')[0]
        gutter = wording(language, 'gutter_header', [])
        content = wording(language, 'content_header', [])
        if head != f'  {gutter.rjust(5)} | {content}':
            return report.violation({'text': text}, f'{text!r}: {label} in {language}: report is headed {head!r}')
        if got.message != f'{got.text}\n\n{got.snippet}' or got.string != got.message:
            return report.violation({'text': text}, f'{text!r}: {label} in {language}: {got.message!r} is not text and report')
    return check


def default_check(text, doc, report):
    """Without a locale, messages are english."""
    if doc.ok or doc.outside_model:
        return
    report.evaluations += 1
    got = sut.attempt(sut.parse, text)
    if not isinstance(got, sut.Rejected) or got.text not in [expected_text('en', err) for err in doc.errors]:
        report.violation({'text': text, 'default': True}, f'{text!r}: got {got!r} {getattr(got, "text", "")!r} by default')


def replay(case):
    report = Report()
    if isinstance(case, dict):
        (default_check if case.get('default') else checker(sorted(LANGUAGES)))(case['text'], Doc(case['text']), report)
    elif case[0] == 'names':
        check_names(case[1], report)
    else:
        check_message(case, report)
    return report.violations[0]['message'] if report.violations else None


def run(session):
    more = session.pick(0, 1)
    session.explore_cases('message catalogs', sorted(LANGUAGES), check_names)
    session.explore_cases('messages with arguments', [[language, name, list(arguments)] for language in sorted(LANGUAGES)
                          for name, (names, _) in MESSAGES.items() for arguments in itertools.product(ARGUMENTS, repeat=len(names))], check_message)
    check = checker(sorted(LANGUAGES))
    session.explore_lines('errors of elements', ['a:', 'b: v', '- i', '-', 'k =', '> c', '# s', '# s'], 4 + more, check)
    session.explore_lines('errors of fieldsets and lists', ['k =', 'k = v', 'l =', '-', '- i'], 4 + more, check, prefix='f:')
    session.explore_lines('errors in the text', ['a: v', 'b < a', '-- m', '`k', ':', '| x', '### s', '# s < t', '- i', 'k = e', '# t'], 4 + more, check)
    session.explore_lines('errors without a locale', ['a: v', 'b < a', '-- m', '`k', ':', '| x', '### s', '# s < t', '- i', 'k = e', '# t'], 3, default_check)
