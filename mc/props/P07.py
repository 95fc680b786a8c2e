"""Sections nest by their level; a level is never skipped."""

from ..docprop import document_check, replayer

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and has at '
        'least two sections')

check = document_check(snippet=True, interesting=lambda doc: doc.ok and sum(node.kind == 'section' for node in doc.nodes) > 1)
replay = replayer(check)


def run(session):
    session.explore_lines('levels', ['# a', '## b', '### c', '#### d', '##### e'], session.pick(7, 9), check)
    session.explore_lines('levels and elements', ['# a', '## b', '### c', 'x: 1', '- i', '> c', ''], session.pick(6, 7), check)
    session.explore_lines('elements of all kinds between sections', ['# a', '## b', '#### d', 'l:', '- i', 'k = v', '| w', '-- m', 'x: 1'],
                          session.pick(5, 6), check)
    session.explore_lines('escaped and copied', ['# `a`', '##  ``b``', '## c < a', '### d', '# e << a', '#f'], session.pick(5, 6), check)
