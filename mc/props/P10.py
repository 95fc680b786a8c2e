"""A copied section has the elements of its template, except those whose keys it has itself."""

from ..docprop import document_check, on_texts, replayer
from ..spaces import graphs

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and a '
        'section is copied')

check = document_check(interesting=lambda doc: doc.ok and any(node.kind == 'section' and node.template for node in doc.nodes))
replay = replayer(check)


def run(session):
    session.explore_lines('chains', ['# a', '# b < a', '# c < b', '# d < a', 'x: 1', 'x: 2', 'y: 3'], session.pick(6, 8), check)
    session.explore_lines('subsections', ['# a', '# b < a', '## s', '## t', '### u', 'x: 1', '## v < s', '> c'], session.pick(6, 7), check)
    session.explore_lines('copies inside templates', ['# a', '# b < a', '## c < d', '# d', '## e', 'x: 1', 'y < x'], session.pick(6, 7), check)
    session.explore_lines('elements of all kinds', ['# b < a', 'x: 2', 'l:', '- 3', 'k = 4', '## s', 'm < x'], session.pick(5, 6), check,
                          prefix='# a\nx: 1\nl:\n- 1\nf:\nk = 2\n-- m\nv\n-- m\n## s\nz: 1')
    session.explore_lines('same keys', ['# a', 'x: 1', 'x: 2', '## x', '# b < a', '# b', '# c < b', '# a < a'], session.pick(6, 7), check)

    names = 'abcd'[:session.pick(3, 4)]
    session.explore_cases('all graphs of sections', graphs('abcd', ['# {0}\nx: {0}\n{0}: 1'], ['# {0} < {1}', '# {0} < {1}\n{0}: 1', '> {0}\n# {0} < {1}\nx: {0}\nx: 2']), on_texts(check), chunks=256)
    session.explore_cases('all graphs of sections with sections below', graphs(names, ['# {0}\n## s\nx: {0}\n## {0}{0}\ny: 1'], ['# {0} < {1}', '# {0} < {1}\n## s\ny: {0}', '# {0}\n## {0}{0} < {1}', '# {0}\n## {0}{0} < {1}{1}']),
                          on_texts(check), chunks=256)
