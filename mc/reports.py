"""Shared by the checks of the three reporters (P22, P23, P24)."""

from . import render, sut
from .compare import error_difference
from .docprop import canonical, guarded, replayer
from .faults import faults

SOURCES = (None, '/home/me/a.eno')


def checker(reporter, source=None, locale=sut.TaggedLocale, callables=False, by_marks=False):
    options = {'locale': locale, 'reporter': sut.REPORTERS[reporter], 'source': source}

    @guarded
    def check(text, doc, report):
        if doc.outside_model:
            return
        report.state(canonical(doc))
        if not doc.ok:
            report.evaluations += 1
            got = sut.load(text, **options)
            report.outcomes[doc.errors[0].kind] += 1
            report.nontrivial += len(doc.lines) > 1
            problem = matches(doc, doc.errors, got)
            if problem:
                report.violation({'text': text, 'source': source}, f'{text!r}: {problem}')
            return
        seen = set()
        for fault in faults(doc, callables):
            err = fault.errors[0]
            family = err.kind and err.kind.replace('_with_key', '').split('_')[0]
            mark = (err.emphasized, err.indicated, err.questioned) if by_marks else (err.emphasized, err.indicated, err.questioned, family, fault.call[0].split('_')[0])
            if mark in seen:
                continue
            seen.add(mark)
            report.evaluations += 1
            report.nontrivial += len(doc.lines) > 1
            report.outcomes[f'{fault.errors[0].kind or fault.call[0]}'.replace('_with_key', '')] += 1
            got, _ = fault.perform(doc, text, **options)
            problem = matches(doc, fault.errors, got)
            if problem:
                return report.violation({'text': text, 'source': source}, f'{text!r}: {fault}: {problem}')
        if report.nontrivial % 499 == 3:
            report.sample({'document': text, 'request': repr(fault)})

    def matches(doc, errors, got):
        if not isinstance(got, sut.Rejected):
            return f'expected one of {errors[:3]}, got {got!r}'
        first = None
        for err in errors:
            # which of the errors that are true of the document it is does not matter here
            if locale is sut.TaggedLocale and error_difference(doc, err, got, False):
                continue
            problem = render.difference(reporter, doc, err, got.snippet, locale, source)
            if problem is None:
                return None
            first = first or problem
        return first or f'expected one of {errors[:3]}, got {got!r}'

    return check


def replay_for(reporter):
    def replay(case):
        return replayer(checker(reporter, case.get('source')))(case)
    return replay


def gaps(texts, limit):
    """Documents in which up to three things stand with gaps of blank lines of every size around them."""
    import itertools
    for count in (1, 2, 3):
        for chosen in itertools.product(texts, repeat=count):
            for blank in itertools.product(range(limit + 1), repeat=count + 1):
                if count == 3 and (max(blank[1:3]) < limit - 1 or blank[0] not in (0, 3) or blank[3] not in (0, 4)):
                    continue
                parts = ['\n' * blank[0]]
                for text, after in zip(chosen, blank[1:]):
                    parts.append(text + '\n' + '\n' * after)
                yield ''.join(parts)[:-1]


def explore(session, reporter):
    check = checker(reporter)
    more = session.pick(0, 1)
    session.explore_lines('fields and comments', ['a:', 'b: v', '| w', '> c', '>', '', '-- m\nx\n\n-- m', '-- n\n-- n'], 3 + more, check)
    session.explore_lines('lists and fieldsets', ['f:', '- i', 'k = e', '\\ w', '> c', ''], 4 + more, check)
    session.explore_lines('sections', ['# s', '## t', '### v', 'a:', '- i', '# u < s', ''], 4 + more, check)
    session.explore_lines('copies', ['a: 1', 'b < a', 'b:', '- i', '# s', '# t << s', '# s < t', ''], 3 + more, check)
    session.explore_lines('escaped keys', ['`a`: 1', '`` b ``:', '`k` = e', '- i', '`b` < a', '# `s`', '## ` t`  <<  s', '--  `m`'], 3 + more, check)
    session.explore_lines('errors in the text', ['a: v', '-- m', '>', '`k', ':', '', '| x', '### s', '# s'], 3 + more, check)
    session.explore_lines('below continued items', ['', '| b', '- c', 'f: v', '## t', '> d'], 3 + more, check, prefix='# s\nl:\n- a\n| b')
    session.explore_lines('below continued entries', ['', '\\ b', 'k = e', 'f: v', '## t', '> d'], 3 + more, check, prefix='# s\nf:\nk = a\n| b')
    session.explore_lines('like the codes of styles', ['m: 1', '0 = 0m', '[:', '- 3', '| 7', '# 9', '1 < m', '`2`: [0m'], 3 + more, check)
    session.explore_lines('with a source', ['a: v', '> c', '# s', '- i', ''], 3 + more, checker(reporter, SOURCES[1]))
    texts = ['a: v', '# s', 'l:\n- i\n\n\n\n\n\n\n- j', '???']
    cases = list(dict.fromkeys(gaps(texts[:3], 6))) + [text + '\n' + extra for text in gaps(texts[:2], 6) if text.count('\n') < 9 for extra in ('???', 'b < a', '> c\n\n\n\n-')]
    from .ref_doc import Doc
    lighter = checker(reporter, by_marks=True)

    def on_text(text, report):
        lighter(text, Doc(text), report)
    session.explore_cases('distances: one to three things with gaps of 0..6 lines before, between and after', cases, on_text, chunks=256)
    long = ['\n'.join([f'e{i}: v' for i in range(count)]) for count in (8, 9, 10, 11, 99, 100, 101)] + \
           ['\n' * 997 + 'a: v', '\n' * 9997 + 'a: v\n\n\n', '\n' * 99998 + ':']
    session.explore_cases('long documents', long[:7 if not more else None] + long[7:], on_text, chunks=16)
