"""A document that breaks the notation is rejected for its first offending line, precisely located."""

from ..docprop import document_check, replayer

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is rejected')

check = document_check(snippet=True, interesting=lambda doc: not doc.ok)
replay = replayer(check)


def run(session):
    bad = ['x', '`k', '##` `` k', '- i', 'k = v', '| w', '\\ w', '### deep', '-- m', '--', ':', '# <']
    good = ['a:', 'b: v', '# s', '> c', '']
    session.explore_lines('one or more offences', bad + good, session.pick(4, 5), check)
    session.explore_lines('offences after valid lines', ['a:', 'a: v', '# s', '-- m', '- i', 'k = v', '| w', '> c', '', 'x', '```k``'],
                          session.pick(5, 6), check)
    session.explore_lines('far away', ['x', '- i', '| w', '### s', '-- m'], 2, check, prefix='\n'.join(['a: 1', '', '> c', 'b:', '- i', '# s'] * 2))
    session.explore_lines('with lines following', ['', ' ', 'a: 1', '> c', 'x'], session.pick(5, 6), check, prefix='x', prune=False)
    session.explore_lines('unterminated with lines following', ['', 'a: 1', '--- m', '- - m', '-- n', 'm'], session.pick(5, 6), check, prefix='a: 1\n-- m', prune=False)
    session.explore_strings('texts', 'a:-`#\n >', session.pick(6, 7), check)
