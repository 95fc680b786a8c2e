"""What is inside a multiline field is taken verbatim."""

from ..docprop import document_check, replayer
from ..ref_doc import Doc
from ..spaces import BLANKS, PRINTABLE, edits, spacings

RULE = ('every sequence of line forms up to the stated length, once; non-trivial: the document is accepted and has a '
        'multiline field with content')


def has_body(doc):
    return doc.ok and any(node.kind == 'multiline' and node.body is not None for node in doc.nodes)


check = document_check(interesting=has_body)
replay = replayer(check)


def run(session):
    session.explore_lines('lines that look like terminators', ['-- a', '--a', ' --  a ', '--- a', '-- b', '--', '-- a b', '- a', 'a: -- a'],
                          session.pick(4, 6), check, prefix='-- a', prune=False)
    session.explore_lines('content that means something elsewhere', ['', ' ', '\t x ', '# s', 'k: v', '> c', '- i', '| w', '`', '<', '-- m', '-- k'],
                          session.pick(4, 5), check, prefix='-- m', prune=False)
    session.explore_lines('around', ['-- m', '-- m', '-- n', 'a:', '- i', '| w', '> c', '# s', '', 'k = v'], session.pick(5, 6), check)
    session.explore_lines('more dashes', ['--- m', '-- m', '---- m', '---m', '--- `m`', 'a: v'], session.pick(5, 6), check)
    session.explore_strings('the opening and closing line', '-a \n', session.pick(8, 9), check, prefix='--')
    session.explore_strings('keys with special characters', '-.*a[\\ ', session.pick(4, 5), check_key)

    depth = session.pick(5, 6)
    session.explore_strings('verbatim characters', ' \t\r\na|-', depth, check, prefix='-- a\n', suffix='\n-- a')

    def closing(line, report):
        for text in (f'-- a b\nv\n{line}\nw\n-- a b\nc:', f'-- a b\n{line}\n-- a b', f'-- a b\nv\n{line}', f'{line}\nv\n-- a b'):
            check(text, Doc(text), report)
    few = '-a b\t#.*'
    lines = set(edits('-- a b')) | {line for once in edits('-- a b', few) for line in edits(once, few)}
    lines |= set(spacings(['--', 'a b'])) | {'-- a b' + one + two for one in PRINTABLE for two in PRINTABLE}
    session.explore_cases('lines one or two characters away from closing the field', sorted(lines), closing, chunks=256)


def check_key(key, _doc, report):
    """The same key closes the field, whatever characters it has, and a different one does not."""
    if not key.strip() or key.lstrip().startswith('-'):
        return
    text = f'-- {key}\nv\n-- {key}\nb: w'
    check(text, Doc(text), report)
    other = f'-- {key}\nv\n-- {key}x\n--- {key}\n-- {key}'
    check(other, Doc(other), report)
