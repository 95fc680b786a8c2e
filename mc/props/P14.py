"""Queries by key and type find exactly the elements there are."""

from .. import ref_errors, sut
from ..compare import describe, error_difference, first_difference
from ..docprop import canonical, guarded, replayer
from ..walk import FORM, accepts, children, follow, form, line_of, reach, walk, where

RULE = ('every document of the stated line forms, and in it every query method of every section, fieldset and list with every '
        'key that occurs there, an absent one, the empty one and none; each on a fresh document; non-trivial: the query finds '
        'something')
MIN_OUTCOMES = 8

SINGLE = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
PLURAL = ('elements', 'fields', 'fieldsets', 'lists', 'sections')


def expected_one(doc, parent, matches, kind, key):
    """('missing',) or ('error', [Err, ...]) or ('found', node)"""
    if not matches:
        return ('missing',)
    if len(matches) > 1:
        return ('error', [ref_errors.unexpected_multiple(doc, key, matches, 'expected_single_' + kind)])
    if not accepts(doc.kind(matches[0]), kind):
        return ('error', [ref_errors.unexpected_type(doc, key, matches[0], 'expected_' + kind)])
    return ('found', matches[0])


def same(doc, node, got, kind):
    """None if got is the element that node stands for, else what differs."""
    wanted = FORM[kind if kind in FORM else doc.kind(node)]
    if form(got) != wanted:
        return f'expected {node} as {wanted}, got {describe(got)} ({form(got)})'
    if where(got) != line_of(node):
        return f'expected {node}, got the element in line {where(got)}'
    raw = sut.attempt(got.raw)
    if raw != doc.raw(node):
        return first_difference(doc.raw(node), raw, str(node))
    return None


def errors_difference(doc, errors, got, snippet=False):
    best = None
    for error in errors:
        difference = error_difference(doc, error, got, snippet, phase='validation')
        if difference is None:
            return None
        best = best or difference
    return best


@guarded
def check(text, doc, report):
    if not doc.ok or doc.outside_model:
        return
    report.state(canonical(doc))

    def query(path, name, *key):
        report.evaluations += 1
        element = reach(doc, sut.load(text), path)
        return sut.attempt(getattr(element, name), *key)

    def fail(path, name, key, message):
        report.violation({'text': text}, f'{text!r}: {name}({", ".join(map(repr, key))}) of {follow(doc, path)}: {message}')

    for path, node, _ in list(walk(doc)):
        kind = doc.kind(node)
        if kind in ('section', 'document'):
            singles, plurals, inner = SINGLE, PLURAL, None
        elif kind == 'fieldset':
            singles, plurals, inner = ('entry',), ('entries',), 'fieldset_entry'
        elif kind == 'list':
            got = query(path, 'items')
            report.outcomes['items'] += 1
            difference = many(doc, doc.items(node), got, 'item')
            if difference:
                return fail(path, 'items', (), difference)
            continue
        else:
            continue

        below = children(doc, node)
        for key in [(), (None,), ('absent',), ('',)] + [(key,) for key in dict.fromkeys(child.key for child in below) if key != '']:
            matches = below if not key or key[0] is None else [child for child in below if child.key == key[0]]
            for name in singles:
                got = query(path, name, *key)
                expected = expected_one(doc, node, matches, inner or name, key[0] if key else None) if inner is None else \
                    expected_entry(doc, matches, key[0] if key else None)
                if expected[0] == 'missing':
                    report.outcomes['nothing'] += 1
                    wanted = 'missing ' + FORM.get(name, 'value')
                    if form(got) != wanted:
                        return fail(path, name, key, f'expected {wanted}, got {describe(got)}')
                elif expected[0] == 'error':
                    report.outcomes[expected[1][0].kind.replace('_with_key', '')] += 1
                    difference = errors_difference(doc, expected[1], got)
                    if difference:
                        return fail(path, name, key, difference)
                else:
                    report.nontrivial += 1
                    report.outcomes[name] += 1
                    difference = same(doc, expected[1], got, name)
                    if difference:
                        return fail(path, name, key, difference)
            for name in plurals:
                got = query(path, name, *key)
                as_kind = {'entries': 'entry', 'elements': 'element'}.get(name, name[:-1])
                wrong = [child for child in matches if inner is None and not accepts(doc.kind(child), as_kind)]
                if wrong:
                    report.outcomes['expected_' + name] += 1
                    errors = [ref_errors.unexpected_type(doc, key[0] if key else None, child, 'expected_' + name) for child in wrong]
                    difference = errors_difference(doc, errors, got)
                else:
                    report.nontrivial += bool(matches)
                    report.outcomes[name] += 1
                    difference = many(doc, matches, got, as_kind)
                if difference:
                    return fail(path, name, key, difference)
    if report.nontrivial % 997 == 5:
        report.sample({'document': text})


def expected_entry(doc, matches, key):
    if not matches:
        return ('missing',)
    if len(matches) > 1:
        return ('error', [ref_errors.unexpected_multiple(doc, key, matches, 'expected_single_fieldset_entry')])
    return ('found', matches[0])


def many(doc, nodes, got, kind):
    if not isinstance(got, list):
        return f'expected a list, got {describe(got)}'
    if len(got) != len(nodes):
        return f'expected {len(nodes)} elements {nodes}, got {len(got)}'
    for node, element in zip(nodes, got):
        difference = same(doc, node, element, kind)
        if difference:
            return difference
    return None


replay = replayer(check)


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('all types', ['a:', 'a: v', 'b:', '-- a\nw\n-- a', '- i', 'k = e', '# a', '## b'], 3 + more, check)
    session.explore_lines('entries', ['k = 1', 'k =', 'l = 2', '`` = ``= 3', '> c', ''], 4 + more, check, prefix='f:')
    session.explore_lines('copies', ['a:', 'a: v', 'k = 1', 'l = 2', '- 1', '# s', '# t < s', 'b < a', '- 2'], 4 + more, check)
    session.explore_lines('copied sections', ['a: 2', 'b: 3', '## s', '## t', 'k = 3', '- 3'], 3 + more, check,
                          prefix='# o\na: 1\na:\nb:\n- 1\n## s\nk: 4\n# c << o')
