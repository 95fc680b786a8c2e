"""Every line is read according to the notation."""


from . import P21, P26
from ..docprop import document_check, replayer
from ..ref_doc import Doc
from ..spaces import BLANKS, edits, spacings

RULE = ('every text of the stated alphabets and lengths, each placed in the stated contexts, once; '
        'non-trivial: the model accepts the document and it has content')

check = document_check(interesting=lambda doc: doc.ok and doc.nodes)
_checks = [replayer(check), replayer(P26.check), replayer(P21.check)]


def replay(case):
    return next(filter(None, (replay_one(case) for replay_one in _checks)), None)

MARKS = 'ab :=<#-`|\\>'


def run(session):
    length = session.pick(5, 6)
    session.explore_strings('a line by itself', MARKS, length, check)
    session.explore_strings('a line below an element', MARKS, session.pick(5, 6), check, prefix='e:\n')
    session.explore_strings('a line between others', MARKS, session.pick(4, 5), check, prefix='e: v\n', suffix='\nz: w')
    session.explore_strings('sections', 'a `<#', session.pick(7, 8), check, prefix='# s\n## t\n#')
    session.explore_strings('escaped keys', '`a :', session.pick(8, 10), check, prefix='`')
    session.explore_strings('escaped keys of entries', '`a =', session.pick(7, 9), check, prefix='f:\n`')
    session.explore_strings('tokens of a line', MARKS, session.pick(4, 5), P26.check, prefix='e:\n')
    session.explore_strings('selections in a line', MARKS, session.pick(4, 5), P21.check, prefix='e:\n')
    session.explore_strings('other whitespace', 'a:=-\t\r\xa0\u2028 ', session.pick(5, 6), check)

    def characters(case, report):
        character, form = case
        text = form.replace('@', character)
        check(text, Doc(text), report)

    limit = session.pick(0x3000, 0x110000)
    forms = ['@:v', 'a@b:v', 'a: v@', 'f:\n@= v', '# @', 'a:\n-@w', 'a: x@y'] if not session.thorough else \
            ['@:v', 'a: v@', '# a@']
    session.explore_cases('every character up to U+%X in key and value positions' % (limit - 1),
                          [(chr(code), form) for code in range(limit) for form in forms], characters, chunks=256)

    def in_context(case, report):
        line, context = case
        text = context.replace('@', line)
        check(text, Doc(text), report)

    lines = ['ab: v w', 'ab :', 'k = e', '`k k` = e', '`a`: v', '- i j', '-- m n', '| w', '\\ w', '> c', '# s', '## `s t`', '# s < t', '# `s` << t', 'b < a']
    contexts = ['@', 'a:\n@\n# t']
    session.explore_cases('lines with one character inserted, replaced or deleted',
                          [(line, context) for original in lines for line in edits(original) for context in contexts], in_context, chunks=256)
    parts = [['a', ':', 'v'], ['a', ':', 'v', 'w'], ['a', ':'], ['`', 'a', '`', ':', 'v'], ['k', '=', 'e'], ['``', 'k', '``', '=', 'e'], ['k', '='],
             ['-', 'i'], ['-', 'i', 'j'], ['-'], ['--', 'm'], ['|', 'w'], ['|', 'w', 'w'], ['\\', 'w'], ['>', 'c', 'd'], ['#', 's'], ['##', 's', 't'], ['#', '`', 's', '`'],
             ['#', 's', '<', 't'], ['#', '`', 's', '`', '<<', 't'], ['b', '<', 'a'], ['`', 'b', '`', '<', 'a', 'c']]
    blanks = BLANKS if session.thorough else ('', ' ', '\t', '\xa0 ')
    session.explore_cases('lines with every combination of blanks between their parts',
                          [(line, context) for part in parts for line in spacings(part, blanks if len(part) < 6 else blanks[:4]) for context in contexts[1:]],
                          in_context, chunks=256)
    if session.thorough:
        few = 'a :=<>#-`|\\\t'
        session.explore_cases('lines with two characters inserted, replaced or deleted',
                              sorted({(line, contexts[1]) for original in lines for once in edits(original, few) for line in edits(once, few)}), in_context, chunks=256)
