"""Comments belong to what directly follows them and keep their relative indentation."""

from ..docprop import document_check, replayer

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and some '
        'comment is attached')

check = document_check(interesting=lambda doc: doc.ok and any(node.comments for node in doc.nodes))
replay = replayer(check)


def run(session):
    session.explore_lines('comments before everything', ['> c', '>', ' >  d ', '', 'a:', '- i', 'k = v', '| w', '# s', '-- m', 'b < a'],
                          session.pick(5, 6), check)
    session.explore_lines('blocks of comments', ['>', '> c', '>   d', '  > e', '>f', '\t>\tg', ' >'], session.pick(5, 6), verbatim(check), prune=False)
    session.explore_lines('comments of entries and items', ['> c', '>  d', '>', 'a:', '- i', 'k = v', '\\ w', ''], session.pick(6, 7), check)
    session.explore_strings('text of comments', '> a\n', session.pick(7, 9), verbatim(check))


def verbatim(check):
    """The text is a comment block; check it in front of an element, a section and an item."""
    def run(text, _doc, report):
        for form in ('%s\na: v', '%s\n# s', 'l:\n%s\n- i'):
            full = form % text
            check(full, Doc(full), report)
    return run


from ..ref_doc import Doc  # noqa: E402
