"""Missing, ambiguous and cyclic templates, and mismatched ones, are always rejected, and nothing else is."""

from ..docprop import document_check, replayer
from ..ref_doc import Doc
from ..spaces import rings

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is rejected because of '
        'a template')

check = document_check(snippet=True, interesting=lambda doc: doc.phase == 'resolution')
replay = replayer(check)


def run(session):
    session.explore_lines('elements', ['a: v', 'a:', 'b < a', 'a < b', 'a < c', 'c < b', 'b < b'], session.pick(6, 7), check)
    session.explore_lines('in sections', ['a: v', 'a < b', 'b < a', '# a', '## b', '# c < b', 'b:'], session.pick(6, 7), check)
    session.explore_lines('sections', ['# a', '# b', '# a < b', '# b < a', '# c < a', '# a < c', '# a < a', '# c << d'], session.pick(5, 6), check)
    session.explore_lines('nested sections', ['# a', '# b', '## c < a', '## c', '### d < b', '# e < c', '### f < e', '# b << d'], session.pick(6, 7), check)
    session.explore_lines('merging sections', ['# x << t', '# t', '## s', '## s < s', '### r', '### r < r', 'a: 1'], session.pick(6, 7), check)
    session.explore_lines('mismatching types', ['b < a', 'a: v', 'a:', '- 1', 'k = 1', '-- a', 'c < b'], session.pick(6, 7), check)
    session.explore_lines('sections are not elements', ['a: v', '# a', 'b < a', '# b < a', 'a < b', '## a'], session.pick(6, 7), check)

    def graph(text, report):
        check(text, Doc(text), report)

    more = session.pick(0, 1)
    names = 'abcdef'
    session.explore_cases('all graphs of copies', list(rings(names[:5 + more], '{}: v', ['{} < {}'])), graph, chunks=256)
    session.explore_cases('all graphs of copied lists', list(rings(names[:5], '{}:\n- v', ['{} < {}\n- w'])), graph, chunks=256)
    session.explore_cases('all graphs of copied sections', list(rings(names[:5 + more], '# {}\nx: v', ['# {} < {}'])), graph, chunks=256)
    session.explore_cases('all graphs of deep copies', list(rings(names[:4 + more], '# {}\nx: v', ['# {} < {}', '# {} << {}\ny: w'])), graph, chunks=256)
    session.explore_cases('all graphs of sections below each other', list(rings(names[:3 + more], '# {0}\n## {0}{0}', ['# {} < {}', '# {0}\n## {0}{0} < {1}'])), graph, chunks=256)
