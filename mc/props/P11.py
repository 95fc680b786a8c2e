"""Deep copies also merge sections with the same key, all the way down."""

import itertools

from ..docprop import document_check, on_texts, replayer
from ..spaces import graphs

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and a '
        'section is merged into')
ASSUMPTIONS = ['subsections that name a template themselves inside a deep copy, and deep copies of a section inside another '
               'deep copy, are outside the model (counted under outside_model)']

check = document_check(interesting=lambda doc: doc.ok and any(node.implicit for node in doc.nodes))
replay = replayer(check)


def run(session):
    session.explore_lines('two levels', ['# t', '# x << t', '# y << x', '## s', '## r', 'a: 1', 'a: 2', '> c'], session.pick(6, 7), check)
    session.explore_lines('merging', ['# x << t', '# y << x', '## s', '### q', 'a: 3', 'b: 4', '### r'], session.pick(6, 7), check,
                          prefix='# t\na: 1\n## s\na: 2\n### q\nb: 5\n## p')
    session.explore_lines('merging with later templates', ['## s', '### q', 'a: 3', 'b: 4', '## s', '## p', '# z < x'], session.pick(5, 6), suffix(check),
                          prefix='# x << t')
    session.explore_lines('shallow and deep', ['# u < t', '# x << u', '# z < x', '## s', 'a: 1', 'b: 2', '## r'], session.pick(6, 7), check,
                          prefix='# t\n## s\na: 0\nc: 9')
    session.explore_lines('ambiguous keys', ['# x << t', '## s', 's: 1', '## s', 'a: 2', '### q'], session.pick(6, 7), check, prefix='# t\n## s\nb: 1\n### q\nc: 2')
    session.explore_lines('ambiguous keys in the template', ['# t', '## s', 's: 1', 'a: 2', '# x << t'], session.pick(7, 8), check)
    session.explore_lines('deep below a subsection', ['# a', '## t', '## x << t', '### s', '#### q', 'a: 1', 'b: 2'], session.pick(6, 7), check)
    session.explore_cases('comments and elements at every level', levels(session.pick((0, 15), range(16))), on_texts(check), chunks=256)

    names = 'abcd'[:session.pick(3, 4)]
    session.explore_cases('all graphs of deep copies', graphs(names, ['# {0}\n## s\nx: {0}\n### q\ny: {0}'],
                                                              ['# {0} << {1}\n## s\nz: {0}\n### q\n{0}: 1', '# {0} << {1}\n## {0}', '# {0} < {1}', '# {0} < {1}\n## s\nz: {0}\n### q\n{0}: 1', '# {0}\n## s < {1}']),
                          on_texts(check), chunks=256)


def levels(filled):
    """A template of four levels and a copy of any number of these, each with or without comment and element."""
    for comments, elements in itertools.product(range(16), filled):
        template = tree('a', 4, comments, elements, 'xxxx')
        for depth in range(1, 5):
            for own, ours, operator in itertools.product(range(2 ** depth), range(2 ** depth), ('<', '<<')):
                yield template + '\n' + tree('b ' + operator + ' a', depth, own, ours, 'yxyx')


def tree(first, depth, comments, elements, keys):
    lines = []
    for level in range(depth):
        if comments >> level & 1:
            lines.append(f'> {first} {level}')
        lines.append('#' * (level + 1) + ' ' + (first if level == 0 else f's{level}'))
        if elements >> level & 1:
            lines.append(f'{keys[level]}: {first}'.replace('<', ''))
    return '\n'.join(lines)


def suffix(check):
    def run(text, _doc, report):
        full = text + '\n# t\na: 1\n## s\na: 2\n### q\nb: 5\n## p'
        check(full, Doc(full), report)
    return run


from ..ref_doc import Doc  # noqa: E402
