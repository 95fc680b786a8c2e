"""The value of a field, entry or item is put together from its line and its continuations."""

from ..docprop import document_check, replayer

RULE = ('every sequence of line forms up to the stated length below each of the stated first lines, once; non-trivial: '
        'the document is accepted and has at least two continuation lines')


def two_continuations(doc):
    return doc.ok and any(len(node.conts) > 1 for node in doc.nodes)


check = document_check(interesting=two_continuations)
replay = replayer(check)


def run(session):
    lines = ['|', '| b', '\\', '\\ c', '', '> d']
    depth = session.pick(5, 7)
    for name, prefix in (('field with value', 'a: v'), ('field without value', 'a:'), ('entry with value', 'a:\nk = v'),
                         ('entry without value', 'a:\nk ='), ('item with value', 'a:\n- v'), ('item without value', 'a:\n-')):
        session.explore_lines('continuations of a ' + name, lines, depth, check, prefix=prefix)
    session.explore_lines('continuations of several', ['a:', 'b: v', '- i', 'k =', '| x', '\\ y', '|', '\\'],
                          session.pick(5, 6), check)
    session.explore_lines('continuations that look like something else', ['a: v', '| # s', '\\ - i', '| k: v', '\\ > c', '| -- m', '|| x', '\\\\', '|\\ |'],
                          session.pick(4, 5), check)
