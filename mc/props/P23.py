"""HTML reports are well-formed and show exactly what is in the document, escaped."""

from ..docprop import guarded
from ..reports import checker, explore, replay_for

RULE = ('every document of the stated line forms: the report of the error it is rejected with, or else of every error that can be '
        'had from it, as read back from the report; non-trivial: the document has several lines')
MIN_OUTCOMES = 12
ASSUMPTIONS = ['which members of a cycle of copies are marked besides the copy itself is left open']

replay = replay_for('html')


def run(session):
    explore(session, 'html')
    more = session.pick(0, 1)
    check = checker('html')
    session.explore_strings('special characters in a value', '<>&"\' /a;', 3 + more, check, prefix='a: b', suffix='\n> c')
    session.explore_strings('special characters in an invalid line', '<>&"\' /a;', 3 + more, check, prefix=':', suffix='\nb: c')
    session.explore_strings('special characters in keys and comments', '<&"a;', 3 + more, check, prefix='> x', suffix='\n`a<&">`: v')

    sources = [''.join(parts) for parts in itertools.product('<>&"\'a', repeat=3)]

    def on_source(source, report):
        text = '# s\n`<b>`: &amp;'
        checker('html', source=source)(text, Doc(text), report)
    session.explore_cases('special characters in the source', sources, on_source)


import itertools  # noqa: E402

from ..ref_doc import Doc  # noqa: E402
