"""Documents have nothing to do with each other, one after the other or at the same time."""

import itertools
import multiprocessing
import os
import sys
import threading

from .. import sut
from ..explore import HarnessError, Report

RULE = ('every interleaving of the requests of every two of the stated programs, each working on a document of its own; every '
        'schedule of two threads that run two of these programs, with up to the stated number of preemptions at the stated points; '
        'each answer is compared with the one the program gets when it runs alone; non-trivial: the programs really interleave')
MIN_OUTCOMES = 2 if sut.LANGUAGE == 'js' else 3
ASSUMPTIONS = [] if sut.LANGUAGE == 'js' else ['threads that share one document are outside: the library promises nothing about them',
               'preemption happens between lines of code of the library (one preemption) or between its function calls (two)']


def refuse(value):
    raise ValueError(f'not {value}')


def plain(value):
    if isinstance(value, sut.Error):
        value = sut.Rejected(value)
    if isinstance(value, sut.Rejected):
        return value.key()
    if isinstance(value, list):
        return [plain(part) for part in value]
    if hasattr(value, 'raw'):
        return value.raw()
    return value


COPIES = '> c\na: 1\nb < a\nl:\n- 1\nm < l\n- 2\n# s\nx: y\n# t << s\nz: w'
OTHER = 'a:\nk = 1\nb < a\nk = 2\n-- m\n # t\n-- m\n# s\n## t\nx:\n\\ u\n| v'
EMPTY = ''
DASHES = '--- m\n-- m\n# t\n--- m\n`k` : 1\n`` n`o ``:\n-- l\n-- m\n-- l'


def document_program(text, **options):
    """Steps; each gets the state of the program and returns an answer."""
    def load(state):
        state['document'] = sut.attempt(sut.parse, text, **options)
        return plain(state['document'])

    steps = [load]
    if text is COPIES:
        steps += [lambda s: plain(s['document'].list('m').required_string_values()), lambda s: plain(sut.attempt(s['document'].field, 's')),
                  lambda s: plain(sut.attempt(s['document'].assert_all_touched)), lambda s: plain(s['document'].section('t').elements())]
    elif text is OTHER:
        steps += [lambda s: plain(s['document'].fieldset('b').entries()), lambda s: plain(s['document'].required_field('m').error('message')),
                  lambda s: plain(sut.attempt(s['document'].section('s').section('t').field('x').required_value, refuse)),
                  lambda s: plain(sut.attempt(s['document'].fieldset('a').assert_all_touched))]
    elif text is DASHES:
        steps += [lambda s: plain(s['document'].elements()), lambda s: plain(s['document'].field('m').value_error('message'))]
    elif text is EMPTY:
        steps += [lambda s: plain(sut.attempt(s['document'].required_field, 'x')), lambda s: plain(s['document'].error('message')),
                  lambda s: s['document'].all_elements_required(), lambda s: plain(sut.attempt(s['document'].optional_list, 'y'))]
    return steps


def lookup_program(text, positions, **options):
    def step(index):
        def look(_state):
            found = sut.attempt(sut.lookup, text, index=index, **options)
            return (found['range'], plain(found['element']), plain(found['element'].key_error('message')), plain(found['element'].error('message')))
        return look
    return [step(index) for index in positions]


def error_program(text, **options):
    return [lambda _state: plain(sut.attempt(sut.parse, text, **options))] * 2


PROGRAMS = {
    'copies': lambda: document_program(COPIES, locale=sut.LOCALES['de'], source='one.eno'),
    'other': lambda: document_program(OTHER, reporter=sut.REPORTERS['html'], locale=sut.LOCALES['es']),
    'empty': lambda: document_program(EMPTY),
    'lookup': lambda: lookup_program(OTHER, (0, 9, 30, len(OTHER))),
    'lookup in Spanish': lambda: lookup_program(OTHER, (0, 9), locale=sut.LOCALES['es'], reporter=sut.REPORTERS['html']),
    'copies again': lambda: document_program(COPIES, reporter=sut.REPORTERS['terminal']),
    'dashes': lambda: document_program(DASHES, reporter=sut.REPORTERS['html']),
    'invalid': lambda: error_program('a: 1\n`b', reporter=sut.REPORTERS['terminal']),
    'cyclic': lambda: error_program('a < b\nb < a\n# c', locale=sut.LOCALES['de']),
    'ambiguous': lambda: error_program('> x\na: 1\na: 2\n\n\n\n\n\nb < a', source='two.eno'),
}

_alone = {}


def alone(name):
    if name not in _alone:
        raise HarnessError('what a program gets alone is found out before anything else runs')
    return _alone[name]


def prepare():
    """What each program gets when it runs alone, each in a process of its own that has not run anything else."""
    for name in PROGRAMS:
        if name not in _alone:
            _alone[name] = in_a_fresh_process(name)


def in_a_fresh_process(name):
    near, far = multiprocessing.Pipe()
    child = os.fork()
    if not child:
        state, answers = {}, []
        try:
            for step in PROGRAMS[name]():
                answers.append(step(state))
        except BaseException as error:
            answers = f'{name}: {type(error).__name__}: {error}'
        far.send(answers)
        os._exit(0)
    far.close()
    answers = near.recv()
    os.waitpid(child, 0)
    return answers


# ---------------------------------------------------------------------- interleaved requests

def interleavings(first, second):
    for chosen in itertools.combinations(range(first + second), first):
        yield [0 if position in chosen else 1 for position in range(first + second)]


def check_interleaving(case, report):
    names, order = case['programs'], case['order']
    try:
        expected = [alone(name) for name in names]
        programs = [PROGRAMS[name]() for name in names]
        states = [{} for _ in names]
        at = [0] * len(names)
        report.evaluations += 1
        report.nontrivial += order != sorted(order)
        for who in order:
            got = programs[who][at[who]](states[who])
            report.transitions += 1
            if got != expected[who][at[who]]:
                return report.violation(case, f'{names[who]}, request {at[who]}, in the order {order} of {names}: got {got!r}, alone {expected[who][at[who]]!r}')
            at[who] += 1
            report.state((tuple(names), tuple(at)))
        report.outcomes['interleaved'] += 1
    except sut.Crash as crash:
        report.violation(case, f'{case}: {crash}')


# ---------------------------------------------------------------------- what a caller does with answers

def check_scribble(case, report):
    """What is done to answers from one document does not show in another."""
    first, second = case['scribble on'], case['then']
    try:
        before = alone(second)
        state = {}
        for index, step in enumerate(PROGRAMS[first]()):
            document = state.get('document')
            step(state)
            if isinstance(document, sut.Rejected) or document is None:
                continue
            for request in (('error', 'm'), ('required_section', 'absent'), ('key_error', 'm'), ('comment_error', 'm'), ('raw',)):
                sut.attempt(sut.scribble, document, *request)
        report.evaluations += 1
        report.nontrivial += 1
        report.outcomes['scribbled'] += 1
        again = {}
        got = [step(again) for step in PROGRAMS[second]()]
        report.transitions += len(got)
        if got != before:
            report.violation(case, f'after answers to {first} were overwritten, {second} gets {got!r} instead of {before!r}')
    except sut.Crash as crash:
        report.violation(case, f'{case}: {crash}')


# ---------------------------------------------------------------------- threads

PACKAGE = sut.os.path.join(sut.os.path.realpath(sut.REPO), 'python', 'enolib') + sut.os.sep


class Scheduler:
    """Two threads, of which one runs at a time; a schedule says after how many of its points a thread is preempted."""

    def __init__(self, switches, points):
        self.switches = [list(part) for part in switches]    # per thread: counts of own points at which to yield
        self.points = points
        self.turn = 0
        self.count = [0, 0]
        self.done = [False, False]
        self.condition = threading.Condition()
        self.preempted = 0

    def trace(self, who):
        def local(frame, event, _argument):
            if event == 'line':
                self.point(who)
            return local

        def enter(frame, event, _argument):
            if not frame.f_code.co_filename.startswith(PACKAGE):
                return None
            if self.points == 'lines':
                return local
            self.point(who)
            return None
        return enter

    def point(self, who):
        self.count[who] += 1
        if self.switches[who] and self.count[who] == self.switches[who][0]:
            self.switches[who].pop(0)
            self.preempted += 1
            self.give(who)

    def give(self, who):
        with self.condition:
            if not self.done[1 - who]:
                self.turn = 1 - who
                self.condition.notify_all()
                self.condition.wait_for(lambda: self.turn == who or self.done[1 - who], timeout=60)
                self.turn = who

    def run(self, programs):
        answers = [None, None]
        failures = [None, None]

        def body(who):
            with self.condition:
                self.condition.wait_for(lambda: self.turn == who, timeout=60)
            state = {}
            collected = []
            try:
                sys.settrace(self.trace(who))
                for step in programs[who]:
                    collected.append(step(state))
            except BaseException as error:
                failures[who] = f'{type(error).__name__}: {error}'
            finally:
                sys.settrace(None)
                answers[who] = collected
                with self.condition:
                    self.done[who] = True
                    self.turn = 1 - who
                    self.condition.notify_all()

        threads = [threading.Thread(target=body, args=(who,)) for who in (0, 1)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(120)
        if any(thread.is_alive() for thread in threads):
            raise RuntimeError('the threads got stuck')
        return answers, failures


_points = {}


def count_points(name, points):
    if (name, points) not in _points:
        scheduler = Scheduler([[], []], points)
        scheduler.run([shortened(name), []])
        _points[name, points] = scheduler.count[0]
    return _points[name, points]


def shortened(name):
    return PROGRAMS[name]()[:3]


def check_schedule(case, report):
    names = case['programs']
    expected = [alone(name)[:3] for name in names]
    scheduler = Scheduler(case['switches'], case['points'])
    answers, failures = scheduler.run([shortened(name) for name in names])
    report.evaluations += 1
    report.transitions += scheduler.preempted + 2
    report.nontrivial += scheduler.preempted > 0
    report.outcomes[f'{scheduler.preempted} preemptions between {case["points"]}'] += 1
    for who in (0, 1):
        if failures[who] or answers[who] != expected[who]:
            return report.violation(case, f'{names[who]} next to {names[1 - who]}: {failures[who] or answers[who]!r}, alone {expected[who]!r}')


def check(case, report):
    if 'order' in case:
        check_interleaving(case, report)
    elif 'scribble on' in case:
        check_scribble(case, report)
    else:
        check_schedule(case, report)


def replay(case):
    prepare()
    report = Report()
    check(case, report)
    return report.violations[0]['message'] if report.violations else None


def run(session):
    prepare()
    for name, answers in _alone.items():
        if isinstance(answers, str):
            return session.report.violation({'program': name}, answers)
    pairs = list(itertools.combinations_with_replacement(PROGRAMS, 2))
    cases = []
    for pair in pairs:
        for order in interleavings(*(len(PROGRAMS[name]()) for name in pair)):
            cases.append({'programs': list(pair), 'order': order})
    if session.thorough:
        for triple in itertools.combinations(['copies', 'other', 'empty'], 3):
            for order in set(itertools.permutations([0, 0, 0, 1, 1, 1, 2, 2, 2])):
                cases.append({'programs': list(triple), 'order': list(order)})
    session.explore_cases('all interleavings of the requests of two programs', cases, check)
    session.explore_cases('answers overwritten by the caller', [{'scribble on': a, 'then': b} for a in ('copies', 'other', 'empty') for b in PROGRAMS], check)

    if sut.LANGUAGE == 'js':
        return                           # has no threads

    def one(pair, report):
        for k in range(1, count_points(pair[0], 'lines') + 1):
            check_schedule({'programs': list(pair), 'points': 'lines', 'switches': [[k], []]}, report)
            if report.full:
                return
    ordered = list(itertools.product(PROGRAMS, repeat=2))
    chosen = ordered if session.thorough else [pair for pair in ordered if pair[0] in ('copies', 'other', 'ambiguous', 'empty') or pair[0] == pair[1]]
    if not session.thorough:
        chosen = [pair for pair in chosen if not set(pair) & {'lookup in Spanish', 'copies again', 'dashes'}]
    session.explore_cases('threads: all schedules with one preemption, before any line of the library, of pairs of programs', chosen, one, chunks=len(chosen))

    def two(case, report):
        pair, k = case
        for m in range(1, count_points(pair[1], 'calls') + 1):
            check_schedule({'programs': list(pair), 'points': 'calls', 'switches': [[k], [m]]}, report)
            if report.full:
                return
    pairs = [('invalid', 'ambiguous'), ('cyclic', 'invalid'), ('empty', 'cyclic')] if not session.thorough else \
            [('copies', 'other'), ('other', 'copies'), ('copies', 'copies'), ('other', 'empty'), ('cyclic', 'copies'), ('ambiguous', 'other'), ('lookup', 'other')]
    session.explore_cases('threads: all schedules with two preemptions, at calls of functions of the library, per program and first preemption',
                          [(pair, k) for pair in pairs for k in range(1, count_points(pair[0], 'calls') + 1)], two, chunks=512)
