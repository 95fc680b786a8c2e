"""Work grows in proportion to the document, and no line makes reading it explode."""

import itertools
import sys

from .. import sut
from ..docprop import case_replayer

RULE = ('every family of documents made of a beginning, one or two kinds of parts repeated n, 2n and 4n times, and an end, and of lines '
        'made of a beginning, a repeated piece and an end; the steps that the library takes for each request are counted, not timed; '
        'non-trivial: the library takes more steps for the larger document')
MIN_OUTCOMES = 10
ASSUMPTIONS = ['a step is a line of the library begun, a call into it, or a jump back within it; what is done inside of functions of the '
               'interpreter, such as regular expressions, is not counted but only limited in time, for the repeated pieces']

ROOT = sut.os.path.realpath(sut.os.path.join(sut.REPO, 'python'))
LIBRARY = {}
JAVASCRIPT = sut.LANGUAGE == 'js'
SLACK = 500 if JAVASCRIPT else 12
REPEATED = 10 if JAVASCRIPT else 4


class Steps:
    """Counts the steps of the library with the monitoring interface of the interpreter."""

    tool = sys.monitoring.PROFILER_ID
    events = sys.monitoring.events.LINE | sys.monitoring.events.JUMP | sys.monitoring.events.PY_START
    count = 0
    ready = False

    @classmethod
    def prepare(cls):
        if cls.ready:
            return
        cls.ready = True
        sys.monitoring.use_tool_id(cls.tool, 'steps')
        for event in (sys.monitoring.events.LINE, sys.monitoring.events.JUMP, sys.monitoring.events.PY_START):
            sys.monitoring.register_callback(cls.tool, event, cls.step)
        sys.monitoring.set_events(cls.tool, cls.events)

    @staticmethod
    def step(code, *_):
        ours = LIBRARY.get(code.co_filename)
        if ours is None:
            ours = LIBRARY[code.co_filename] = sut.os.path.realpath(code.co_filename).startswith(ROOT + sut.os.sep)
        if not ours:
            return sys.monitoring.DISABLE
        Steps.count += 1

    @classmethod
    def of_javascript(cls, function, *args, **kwargs):
        sut.steps()
        result = sut.attempt(function, *args, **kwargs)
        return sut.steps(), result

    @classmethod
    def of(cls, function, *args, **kwargs):
        """(number of steps, result)"""
        if JAVASCRIPT:
            return cls.of_javascript(function, *args, **kwargs)
        cls.prepare()
        cls.count = 0
        result = sut.attempt(function, *args, **kwargs)
        return cls.count, result


def content(raw):
    """Number of things in what raw() gives."""
    if isinstance(raw, dict):
        return 1 + sum(content(part) for part in raw.values())
    if isinstance(raw, list):
        return sum(content(part) for part in raw)
    return 0


def ask(element):
    """Everything that is in an element, once."""
    if hasattr(element, 'to_section'):
        for name in ('section', 'list', 'fieldset', 'field', 'empty'):
            if getattr(element, f'yields_{name}')():
                return ask(getattr(element, f'to_{name}')())
    if hasattr(element, 'string_key'):
        element.string_key()
    if hasattr(element, 'optional_string_comment'):
        element.optional_string_comment()
    for name in ('elements', 'entries', 'items'):
        if hasattr(element, name):
            for part in getattr(element, name)():
                ask(part)
    if hasattr(element, 'optional_string_value'):
        element.optional_string_value()


def by_key(section):
    for element in section.elements():
        section.elements(element.string_key())
        section.optional_element(element.string_key()) if len(section.elements(element.string_key())) == 1 else None
        if element.yields_section():
            by_key(element.to_section())
        if element.yields_fieldset():
            fieldset = element.to_fieldset()
            for entry in fieldset.entries():
                fieldset.entries(entry.string_key())


def ends_rejected(function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except sut.Error as error:
        str(error)
        return error


def last_error(document):
    elements = document.elements()
    return str((elements[-1] if elements else document).error('custom'))


REQUESTS = {
    'checking for untouched elements': lambda document, text: ends_rejected(document.assert_all_touched),
    'raw()': lambda document, text: document.raw(),
    'asking everything': lambda document, text: ask(document),
    'asking by key': lambda document, text: by_key(document),
    'touching, and checking for untouched elements': lambda document, text: (document.touch(), document.assert_all_touched()),
    'an error at the last element': lambda document, text: last_error(document),
    'a missing element': lambda document, text: ends_rejected(document.required_field, 'no such'),
    'looking up an index': lambda document, text: sut.lookup(text, index=len(text)),
    'looking up a line': lambda document, text: sut.lookup(text, line=text.count('\n'), column=0),
}
FRESH = ('asking everything', 'asking by key', 'touching, and checking for untouched elements')


def measure(text, reporter):
    """{request: steps}, and the size of the document: its lines and what it contains."""
    found = {}
    found['reading'], document = Steps.of(sut.parse, text, reporter=reporter)
    size = text.count('\n') + 1
    if isinstance(document, sut.Rejected):
        return found, size
    for name, request in REQUESTS.items():
        if name in FRESH:
            document = sut.attempt(sut.parse, text, reporter=reporter)
        found[name], result = Steps.of(request, document, text)
        if isinstance(result, sut.Rejected):
            raise sut.Crash(name, RuntimeError(repr(result)))
        if name == 'raw()':
            size += content(result)
    return found, size


def document_of(case, count):
    begin, parts, end = case['begin'], case['parts'], case['end']
    return begin + ''.join(part.format(i=i, j=i + 1, k=i + 2, level='#' * (i + 1)) for i in range(count) for part in parts) + end


TIMES = (6, 12, 24)


def grows(case, report):
    """The steps between n, 2n and 4n grow with the size of what is read."""
    reporter = sut.REPORTERS[case['reporter']]
    try:
        measure(document_of(case, 2), reporter)                      # whatever is done once per process
        (one, size_one), (two, size_two), (four, size_four) = (measure(document_of(case, n), reporter) for n in TIMES)
    except sut.Crash as crash:
        report.evaluations += 1
        return report.violation(case, f'{document_of(case, 3)!r}...: {crash}')
    if not set(one) == set(two) == set(four):
        return                                                       # accepted up to a number of parts
    # what is copied through a chain may be looked up along the chain
    linear = size_four - size_two <= 2.05 * (size_two - size_one) + 1 and not any('{j}' in part and '{i}' in part for part in case['parts'])
    for name in one:
        first, second = two[name] - one[name], four[name] - two[name]
        report.evaluations += 1
        report.nontrivial += second > 0
        report.outcomes[f"{name}{', chains or growing content' if not linear else ''}"] += 1
        report.state((name, tuple(case['parts']), one[name], two[name], four[name]))
        if second > (2.15 * first if linear else 4.3 * first) + SLACK:
            return report.violation(case, f'{document_of(case, 3)!r} with {TIMES} repetitions: {name} takes {one[name]}, {two[name]} and '
                                          f'{four[name]} steps, for a size of {size_one}, {size_two} and {size_four}')
    if report.nontrivial % 499 < 9:
        report.sample({'document': document_of(case, 2), 'steps': {name: [one[name], two[name], four[name]] for name in one}})


def again(case, report):
    """Reading and asking again, up to four times (ten in JavaScript), takes no more steps than the second time."""
    text, reporter = document_of(case, 6), sut.REPORTERS[case['reporter']]
    steps = {}
    for _ in range(REPEATED):
        for name, count in measure(text, reporter)[0].items():
            steps.setdefault(name + ' of yet another document', []).append(count)
    for name, request in REQUESTS.items():
        document = sut.attempt(sut.parse, text, reporter=reporter)
        if not isinstance(document, sut.Rejected):
            for _ in range(REPEATED):
                steps.setdefault(name + ' once more', []).append(Steps.of(request, document, text)[0])
    for name, counts in steps.items():
        report.evaluations += 1
        report.nontrivial += 1
        report.outcomes[name] += 1
        if max(counts[2:]) > counts[1]:
            return report.violation(case, f'{text!r}: {name} takes {counts} steps')


PARTS = ['e{i}:\n', 'f{i}: v\n', 'f: v\n', 'l{i}:\n- a\n- b\n', '- c\n', 's{i}:\na{i} = b\n', 'x{i} = y\n', 'x = y\n', '| v\n', '\\ v\n', '> c\n', '\n',
         '-- m{i}\nx\n-- m{i}\n', '-- m\n\n\n-- m\n', '# s{i}\n', '# s\nf: v\n', '## t{i}\nf: v\n', '## t\n### u\n', 'g{i} < f\n', 'g{i} < l\n- d\n',
         'g{i} < s\nb{i} = c\n', 'f{j} < f{i}\n', 'l{j} < l{i}\n- d\n', 's{j} < s{i}\nx{j} = y\n', '# t{i} < s\n', '# t{i} << s\n## t\nh{i}: v\n',
         '# s{j} < s{i}\nh{j}: v\n', '# s{j} << s{i}\n## t\nh{j}: v\n', '`e {i}`: v\n', '{level} s\n', 'z:\n- {i}\n', 'z:\n{i} = {j}\n']
BEGINS = ['', 'f: v\n', 'l:\n- a\n', 's:\na = b\n', 'f0: v\n', 'l0:\n- a\n', 's0:\na = b\n', '# s\nf: v\n', '# s0\nf: v\n## t\ng: v\n', 'f: a\n']
ENDS = ['', '???', 'y < unknown', '-- open\n', '- misplaced', '> c', 'last: v', '#### skipped']
CYCLES = ['g{i} < g{j}\n', 'l{i} < l{j}\n- a\n', '# s{i} < s{j}\n']

LARGE = (1000, 8000)


def large(case, report):
    """Eight times as much takes nowhere near 64 times as long; for what is not made of steps of the library."""
    reporter = sut.REPORTERS[case['reporter']]
    taken = []
    for count in LARGE:
        text = document_of(case, count)
        times = {}
        before = sut.time_used()
        document = sut.attempt(sut.parse, text, reporter=reporter)
        times['reading'] = sut.time_used() - before
        if not isinstance(document, sut.Rejected):
            for name, request in REQUESTS.items():
                if JAVASCRIPT and name.startswith('asking'):
                    continue                                         # the bridge takes longer
                if name in FRESH:
                    document = sut.attempt(sut.parse, text, reporter=reporter)
                before = sut.time_used()
                sut.attempt(request, document, text)
                times[name] = sut.time_used() - before
        taken.append(times)
    for name in taken[0]:
        few, many = taken[0][name], taken[1][name]
        report.evaluations += 1
        report.nontrivial += many > few
        report.outcomes[f'{name}, {LARGE[1]} parts'] += 1
        if many > 0.6 and many > 24 * few:
            return report.violation(case, f'{document_of(case, 2)!r} with {LARGE} repetitions: {name} takes {few:.3f} and {many:.3f} s of processor time')


CHARACTERS = ['a', ' ', '`', ':', '=', '<', '>', '#', '-', '|', '\\', '\n']
LENGTH = 120
SECONDS = 3.0


def pump(case, report):
    """A line in which a piece is repeated is read in no time: on this kind of text the library takes milliseconds."""
    report.evaluations += 1
    text = case['begin'] + case['piece'] * (LENGTH // len(case['piece'])) + case['end']
    before = sut.time_used()
    try:
        got = sut.load(text)
        if not isinstance(got, sut.Rejected):
            sut.attempt(got.raw)
    except sut.Crash as crash:
        return report.violation(case, f'{text!r}: {crash}')
    report.nontrivial += 1
    report.outcomes[f'a piece repeated: {got.kind if isinstance(got, sut.Rejected) else "accepted"}'] += 1
    used = sut.time_used() - before
    if used > SECONDS:
        report.violation(case, f'{text!r}: took {used:.1f} s of processor time')


def replay(case):
    return case_replayer({'grows': grows, 'again': again, 'pump': pump, 'large': large}[case['what']])(case)


def families(session):
    for begin in BEGINS:
        for part in PARTS + CYCLES:
            for end in ENDS if begin == '' or session.thorough else ENDS[:2]:
                yield begin, (part,), end, 'text'
    for part in PARTS + CYCLES:
        for end in ENDS:
            for reporter in ('html', 'terminal'):
                yield '', (part,), end, reporter
    for parts in itertools.permutations(PARTS, 2):
        for begin in session.pick([BEGINS[0], BEGINS[8]], BEGINS):
            yield begin, parts, '', 'text'
    if session.thorough:
        for parts in itertools.permutations(PARTS, 3):
            yield '', parts, '', 'text'


def run(session):
    cases = [{'begin': begin, 'parts': list(parts), 'end': end, 'reporter': reporter} for begin, parts, end, reporter in families(session)]
    session.explore_cases('families of documents: repeated parts between a beginning and an end', [{'what': 'grows', **case} for case in cases], grows, chunks=512)
    session.explore_cases('requests repeated', [{'what': 'again', **case} for case in cases if len(case['parts']) == 1 or session.thorough], again, chunks=128)
    session.explore_cases('large documents', [{'what': 'large', **case} for case in cases if len(case['parts']) == 1 and case['reporter'] == 'text'
                                              and case['begin'] in ('', BEGINS[1], BEGINS[3], BEGINS[7]) and case['end'] in ('', 'y < unknown')
                                              and not any('{j}' in part or '{level}' in part for part in case['parts'])], large, chunks=128)
    pieces = [''.join(p) for n in session.pick((1, 2), (1, 2, 3)) for p in itertools.product(CHARACTERS, repeat=n)]
    begins = [''.join(p) for n in (0, 1) for p in itertools.product(CHARACTERS, repeat=n)]
    cases = [{'what': 'pump', 'begin': begin, 'piece': piece, 'end': end} for begin in begins for piece in pieces for end in [''] + CHARACTERS]
    longer = [''.join(p) for p in itertools.product(CHARACTERS, repeat=2)] + session.pick([], [''.join(p) for p in itertools.product(CHARACTERS, repeat=3)])
    cases += [{'what': 'pump', 'begin': begin, 'piece': piece, 'end': end} for begin in longer
              for piece in pieces if len(piece) < session.pick(2, 3) for end in [''] + CHARACTERS]
    session.explore_cases('repeated pieces of a line', cases, pump, chunks=256)
