"""Errors say what is wrong and point at it."""

from .. import sut
from ..compare import error_difference, verdict_difference
from ..docprop import canonical, guarded, replayer
from ..faults import faults

RULE = ('every document of the stated line forms: the error it is rejected with, or else every request on every element of it that '
        'must fail (errors made by the caller, missing comments, values and elements, refused by a loader, wrong type or number, not '
        'looked at); non-trivial: the document was accepted')
MIN_OUTCOMES = 20


@guarded
def check(text, doc, report):
    if doc.outside_model:
        return
    report.state(canonical(doc))
    if not doc.ok:
        report.evaluations += 1
        report.outcomes[doc.errors[0].kind] += 1
        difference = verdict_difference(text, doc, sut.load(text), snippet=False)
        if difference:
            report.violation({'text': text}, f'{text!r}: {difference}')
        return
    for fault in faults(doc):
        report.evaluations += 1
        report.nontrivial += 1
        report.outcomes[f'{fault.call[0].split("_")[0]}: {fault.errors[0].kind}'.replace('_with_key', '')] += 1
        got, problem = fault.perform(doc, text)
        differences = [problem] if problem else [error_difference(doc, error, got, False, phase='validation') for error in fault.errors]
        if None not in differences:
            return report.violation({'text': text}, f'{text!r}: {fault}: {differences[0]}')
    if report.nontrivial % 499 == 3:
        report.sample({'document': text, 'request': repr(fault)})


replay = replayer(check)


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('fields', ['a:', 'a : v ', '| w', '\\ ', '> c', '>', '', 'b < a', ' c  <  a  ', '`k`: u'], 3 + more, check)
    session.explore_lines('fieldsets', ['  f :', 'k = e ', ' `l` =', '| w', '>  c', '', ' `g`  <  f  '], 4 + more, check)
    session.explore_lines('lists', ['l:', ' -  i ', '-', '\\ w ', '> c', '', 'm < l  '], 4 + more, check)
    session.explore_lines('multiline fields', ['-- m', ' --  m', 'v', '> c', 'n < m', ''], 5 + more, check)
    session.explore_lines('sections', ['# s', ' ## `t`', 'a:', '- i', 'k = e', '> c', ' # u  <<  s  ', ''], 4 + more, check)
    session.explore_lines('a bit of everything', ['a:', 'b: v', '- i', '| w', '# s'], 4 + more, check, prefix='> c\n\n  > d\n  >\n# o\n')
    session.explore_lines('empty values with blanks', ['a:  ', ' f :  ', 'k =  ', '-  ', '--  m', '|  ', '| w', '\\  ', 'b <  a  '], 3 + more, check)
    session.explore_lines('parts that look alike', ['a : a a', '- - -', '=', 'a = a', '| | |', '\\ \\', '> > >', '# a', 'b a < a', '`a`: a', '``` ` ``` = `', '-- - --'], 3 + more, check)
    session.explore_lines('sections with parts that look alike', ['# a', '## # a', '# # <<', '# a a << a', '# `<` < a', '### `a` << # a', '# < a'], 3 + more, check)
    session.explore_strings('selections in one line', 'a:=<`- ', 4 + more, check, prefix='e:\n')
