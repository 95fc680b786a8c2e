"""Elements, entries and items end up where they are written, in order."""

from ..docprop import document_check, replayer

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the model accepts the document and '
        'it has at least two elements, entries or items')

check = document_check(interesting=lambda doc: doc.ok and len(doc.nodes) > 1)
replay = replayer(check)


def run(session):
    session.explore_lines('mixed content', ['a:', 'b: v', 'a = 1', 'b = 2', '- i', '-', '# s', '## t', '', '> c', '| w', '-- m', '-- m'],
                          session.pick(5, 6), check)
    session.explore_lines('entries', ['a:', 'a: v', 'a = 1', '`b` = 2', 'a =', '# s', '\\ w', '', '> c'], session.pick(6, 7), check)
    session.explore_lines('items', ['a:', 'b:', '- i', '- j', '-', '# s', '| w', ''], session.pick(6, 7), check)
    session.explore_lines('same keys', ['a:', 'a: 1', '- 1', 'a = 1', '# a', '## a'], session.pick(6, 7), check)
