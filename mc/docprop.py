"""Shared parts of the checks that compare whole documents with the reference model."""

from .compare import asked_difference, content_difference, verdict_difference
from .explore import Report
from .ref_doc import Doc
from . import sut


def outcome_of(doc):
    if not doc.ok:
        return doc.errors[0].kind
    kinds = sorted({doc.kind(node) for node in doc.nodes})
    return 'accepted: ' + (' '.join(kinds) or 'nothing')


def canonical(doc):
    """Canonical model state after reading a document: its observable content, or how it is rejected."""
    if not doc.ok:
        return (doc.phase, doc.errors[0].kind, doc.errors[0].args, doc.errors[0].line)
    return doc.raw(doc.root) if not doc.outside_model else ('outside', doc.text)


def guarded(check):
    """Turn anything but the library's own errors into a violation."""
    def run(text, doc, report):
        try:
            check(text, doc, report)
        except sut.Crash as crash:
            report.evaluations += 1
            report.violation({'text': text}, f'{text!r}: {crash}')
    return run


def document_check(snippet=False, count_states=True, interesting=None, ask=None):
    """check(text, doc, report) comparing verdict, error and complete content, as given by raw() and, if ask says so
    (by default for what is interesting), as obtained by asking every element."""
    @guarded
    def check(text, doc, report):
        if doc.outside_model:
            # what it must say is open, but not that it must say something
            report.skipped[doc.outside_model] += 1
            got = sut.load(text)
            if not isinstance(got, sut.Rejected):
                sut.attempt(got.raw)
            return
        got = sut.load(text)
        report.evaluations += 1
        outcome = outcome_of(doc)
        report.outcomes[outcome] += 1
        if count_states:
            report.state(canonical(doc))
        if interesting is None or interesting(doc):
            report.nontrivial += 1
            if report.nontrivial % 97 == 1:
                report.sample({'document': text, 'outcome': outcome})
        difference = verdict_difference(text, doc, got, snippet)
        if difference is None and doc.ok:
            difference = content_difference(doc, got)
            if difference is None and (ask is None and interesting is None or (ask or interesting)(doc)):
                difference = sut.attempt(asked_difference, doc, got)
                if isinstance(difference, sut.Rejected):
                    difference = f'asking for the content raised {difference}'
        if difference is not None:
            report.violation({'text': text}, f'{text!r}: {difference}')
    return check


def on_texts(check):
    """For explore_cases with texts."""
    def run(text, report):
        check(text, Doc(text), report)
    return run


def replayer(check):
    def replay(case):
        report = Report()
        check(case['text'], Doc(case['text']), report)
        return report.violations[0]['message'] if report.violations else None
    return replay


def case_replayer(check):
    """For checks of the form check(case, report) with JSON compatible cases."""
    def replay(case):
        report = Report()
        check(case, report)
        return report.violations[0]['message'] if report.violations else None
    return replay
