"""Copied elements have the content of their template, extended or overridden by their own."""

from ..docprop import document_check, on_texts, replayer
from ..spaces import graphs

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and an '
        'element is copied')

check = document_check(interesting=lambda doc: doc.ok and any(node.template for node in doc.nodes))
replay = replayer(check)


def run(session):
    session.explore_lines('fields', ['a: v', 'a:', '| w', 'b < a', 'c < b', 'b: u', '-- a', '> c', '# s'], session.pick(6, 7), check)
    session.explore_lines('fieldsets', ['a:', 'b < a', 'c < b', 'k = 1', 'l = 2', 'k = 3', '> c', 'd < a'], session.pick(6, 7), check)
    session.explore_lines('lists', ['a:', 'b < a', 'c < b', '- 1', '- 2', '| w', '# s', 'd < a'], session.pick(6, 7), check)
    session.explore_lines('across sections', ['a: v', 'a:', '- 1', 'k = v', '# s', '## t', 'b < a', '`c` < b'], session.pick(6, 7), check)
    session.explore_lines('empty templates', ['a:', 'b < a', 'b < b', 'k = 1', '- 1', 'a < a', '|', '> c'], session.pick(6, 7), check)
    session.explore_lines('content on both ends', ['x < a', 'y < x', 'k = 1', 'l = 2', 'k = 3', 'm ='], session.pick(6, 7), check, prefix='a:\nk = 0\nm = 4')
    session.explore_lines('items on both ends', ['x < a', 'y < x', '- 1', '-', '| w', '> c'], session.pick(6, 7), check, prefix='a:\n- 0\n- 9')

    names = 'abcd'
    session.explore_cases('all graphs of lists', graphs(names, ['{0}:\n- {0}'], ['{0} < {1}', '{0} < {1}\n- {0}']), on_texts(check), chunks=256)
    session.explore_cases('all graphs of fieldsets', graphs(names, ['{0}:\nk = {0}\n{0} = 1'], ['{0} < {1}', '{0} < {1}\n{0} = 2', '> {0}\n{0} < {1}\nk = {0}']), on_texts(check), chunks=256)
    session.explore_cases('all graphs of fields', graphs(names, ['> {0}\n{0}: v', '-- {0}\nw\n-- {0}'], ['{0} < {1}', '> {0}\n{0} < {1}']), on_texts(check), chunks=256)
