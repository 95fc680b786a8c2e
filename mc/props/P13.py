"""Where a template stands in the document makes no difference to what is copied."""

import itertools
import json

from .. import sut
from ..docprop import case_replayer
from ..explore import Report
from ..ref_doc import Doc

RULE = ('every set of blocks of the stated size, in every order; non-trivial: the documents are accepted and a block is '
        'a copy')
ASSUMPTIONS = ['deep copies whose content depends on another pending deep copy are outside the model (see P11)']

ELEMENTS = ['a: 1', 'a:\n- 1', 'a:\nk = 1\nl = 2', '-- a\nv\n-- a', 'a:', 'b < a', '> c\nb < a\n- 2', 'b < a\nk = 3', 'c < b', 'c < b\n- 4',
            'c < b\nk = 5', 'a < c', 'd < a', 'd < c']
SECTIONS = ['# a\nx: 1\n## s\ny: 2', '# a', '# b < a', '# b < a\nx: 3', '# b << a\n## s\nz: 4', '# c < b\ny: 5', '# c << b\n## s\nw: 6',
            '# d < s', '# a < d', '> k\n# e < a\n## f < g', '# g\nv: 7', '# g < b', '# h < c\nx: 8', 'u: 9']

NESTED = ['# a << b\n## c\n### e\nz: 1', '# a < b', '# b\n## c < d\nw: 2', '# b\n## c << d\n### e\nv: 3', '# b << g', '# g\n## c < d', '# d\n## e\ny: 1',
          '# d << f\n## e\nu: 4', '# f\n## e\nx: 2', '# h << a\n## c\n### e\nt: 5', '# d\n## e < i', '# i\ns: 6\n## j\nr: 7', '# k\n## l\n### m < b', '# n << k\n## l\n### m\n#### c\nq: 8']


def check(case, report):
    blocks = case
    try:
        reference = None
        for order in itertools.permutations(range(len(blocks))):
            ordered = [blocks[i] for i in order]
            if not all(ordered[i].startswith(('#', '>')) or i == 0 or not '#' in ordered[i - 1] for i in range(len(ordered))):
                continue                 # an element would become part of the section before it
            text = '\n'.join(ordered)
            doc = Doc(text)
            if doc.outside_model:
                report.skipped[doc.outside_model] += 1
                return
            got = sut.load(text)
            report.evaluations += 1
            result = summary(got, ordered)
            report.outcomes['rejected' if result[0] == 'rejected' else 'accepted'] += 1
            if reference is None:
                reference, first = result, text
                report.state(result)
                if result[0] == 'accepted' and any('<' in block for block in blocks):
                    report.nontrivial += 1
                    if report.nontrivial % 29 == 1:
                        report.sample({'blocks': blocks})
            elif result != reference:
                report.violation(case, f'{first!r} gives {reference}, but {text!r} gives {result}')
                return
    except sut.Crash as crash:
        report.violation(case, f'{blocks}: {crash}')


def summary(got, blocks):
    if isinstance(got, sut.Rejected):
        return ('rejected',)
    elements = sut.attempt(got.raw)['elements']
    return ('accepted', sorted(json.dumps(element, sort_keys=True) for element in elements))


replay = case_replayer(check)


def run(session):
    size = session.pick(4, 5)
    for name, blocks in (('elements', ELEMENTS), ('sections', SECTIONS), ('nested sections', NESTED)):
        cases = [list(chosen) for count in range(2, size + 1) for chosen in itertools.combinations(blocks, count)]
        session.explore_cases(f'all orders of up to {size} blocks of {name}', cases, check, chunks=256)
