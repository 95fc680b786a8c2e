"""Bounded exhaustive exploration: enumeration, parallel execution, accounting, reporting.

A check is a module in mc/props with
    TITLE, LEVEL_NOTE ...
    def run(session)            explores; calls session.explore_* / session.parallel
    def replay(case) -> message or None
"""

import collections
import hashlib
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import time
import traceback

from . import sut
from .ref_doc import Doc

EVIDENCE = os.environ.get('VERIF_EVIDENCE')      # elsewhere than in evidence/, for trying things out
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS_PER_SHARD = 3
MAX_VIOLATIONS = int(os.environ.get('VERIF_ENOUGH', 25))
WORKERS = int(os.environ.get('VERIF_WORKERS') or min(os.cpu_count() or 1, 16))
KNOWN = []                               # recorded findings of the property that is checked (see known.py)

NO_ANSWER = 'does not come back'


class Report:
    """What one shard (or, merged, one run) has covered and found. Picklable and mergeable."""

    def __init__(self):
        self.evaluations = 0             # cases executed on the implementation and compared
        self.nontrivial = 0
        self.transitions = 0
        self.states = set()              # fingerprints of canonical model states
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.skipped = collections.Counter()
        self.known = {}
        self.hung = False

    def merge(self, other):
        self.evaluations += other.evaluations
        self.nontrivial += other.nontrivial
        self.transitions += other.transitions
        self.states |= other.states
        self.outcomes.update(other.outcomes)
        self.skipped.update(other.skipped)
        self.violations.extend(other.violations)
        self.known.update(other.known)
        self.hung = self.hung or other.hung
        for sample in other.samples:
            if len(self.samples) < 12:
                self.samples.append(sample)

    def state(self, value):
        """Register a canonical model state; value is anything with a deterministic repr."""
        self.states.add(fingerprint(value))

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(value)

    def violation(self, case, message):
        for finding in KNOWN:
            if finding['case'] == case:
                self.known[finding['what']] = message
                return
        self.violations.append({'case': case, 'message': message})
        self.hung = self.hung or NO_ANSWER in message        # more of these would take too long

    @property
    def full(self):
        return self.hung or len(self.violations) >= MAX_VIOLATIONS_PER_SHARD


def fingerprint(value):
    return int.from_bytes(hashlib.blake2b(repr(value).encode('utf-8', 'surrogatepass'), digest_size=7).digest(), 'big')


class HarnessError(Exception):
    pass


_current = None                          # (function, shards), inherited by forked workers


class Hang(BaseException):
    """A shard did not finish in many times the time it takes."""


def _alarm(_signal, _frame):
    raise Hang


def _call(index):
    """Run one shard. What the check itself does not foresee - the implementation hangs, or raises or answers
    something that makes no sense to the check - is a violation too: it does not happen where the property holds."""
    function, shards, limit = _current
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return function(shards[index])
    except (OSError, HarnessError):
        return traceback.format_exc()
    except BaseException as error:
        report = Report()
        report.evaluations = 1
        report.hung = isinstance(error, Hang)
        report.violation({'shard': repr(shards[index])[:500]},
                         (f'no answer within {limit} s' if report.hung else 'not foreseen by the check')
                         + '\n' + traceback.format_exc()[-4000:])
        return report
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _serve(connection):
    try:
        while True:
            connection.send(_call(connection.recv()))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def spread(count, workers):
    """Results of _call for every shard, by processes of their own; these are killed as soon as no more is asked for.

    Each has a connection of its own and there are no threads or locks: a pool of multiprocessing can deadlock when it
    is terminated while there still are results."""
    context = multiprocessing.get_context('fork')
    processes = {}
    pending = iter(range(count))
    try:
        for _ in range(workers):
            near, far = context.Pipe()
            process = context.Process(target=_serve, args=(far,), daemon=True)
            process.start()
            far.close()
            processes[near] = process
            near.send(next(pending))
        busy = set(processes)
        while busy:
            for connection in multiprocessing.connection.wait(busy):
                try:
                    result = connection.recv()
                except EOFError:
                    busy.discard(connection)
                    processes[connection].join()
                    yield _died(processes[connection].exitcode)
                    continue
                index = next(pending, None)
                if index is None:
                    busy.discard(connection)
                else:
                    connection.send(index)
                yield result
    finally:
        for connection, process in processes.items():
            process.kill()
            process.join()
            connection.close()


def _died(code):
    if code != -signal.SIGSEGV and code != -signal.SIGABRT:
        return f'a process of the check ended with {code}'
    report = Report()
    report.evaluations = 1
    report.violation({'shard': 'unknown'}, f'the interpreter crashed ({signal.Signals(-code).name})')
    return report


class Session:
    def __init__(self, property_id, tier, seed):
        self.property = property_id
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.report = Report()
        self.bounds = []                 # human readable statement of every space that was enumerated
        self.started = time.time()
        self.patience = self.pick(240, 7200)     # seconds for a shard

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def bound(self, text):
        self.bounds.append(text)

    # ------------------------------------------------------------ running shards

    def parallel(self, function, shards, workers=None):
        """function(shard) -> Report, for every shard; merged into the session's report."""
        shards = list(shards)
        workers = min(workers or WORKERS, max(1, len(shards)))
        if self.enough:
            return
        global _current
        _current = (function, shards, self.patience)
        if workers == 1:
            for index in range(len(shards)):
                self._absorb(_call(index))
                if self.enough:
                    break
            return
        for result in spread(len(shards), workers):
            self._absorb(result)
            if self.enough:
                break

    @property
    def enough(self):
        return self.report.hung or len(self.report.violations) >= MAX_VIOLATIONS

    def _absorb(self, result):
        if isinstance(result, str):
            raise HarnessError(result)
        self.report.merge(result)

    # ------------------------------------------------------------ spaces

    def explore_lines(self, name, alphabet, depth, check, prefix='', prune=True, split=2):
        """All documents of up to `depth` lines over `alphabet` (each optionally below a fixed prefix).

        check(text, doc, report) compares the implementation with the model on one document.  Below a
        document that the model rejects while reading it, further lines cannot matter, except for closing an
        open multiline field; with `prune`, one further level is explored there and no more."""
        alphabet = list(dict.fromkeys(alphabet))
        self.bound(f'{name}: all documents of 0..{depth} lines over {len(alphabet)} line forms'
                   + (f' below {prefix!r}' if prefix else '')
                   + (' (below a line that is rejected: one more line)' if prune else ''))
        split = min(split, depth)
        shards = []
        for length in range(split):
            shards.extend((lines, False) for lines in itertools.product(alphabet, repeat=length))
        head = [(lines, True) for lines in itertools.product(alphabet, repeat=split)]
        shallow = [shards] if shards else []
        jobs = shallow + [[item] for item in head]

        def work(batch):
            report = Report()
            for lines, deeper in batch:
                # a rejected prefix is explored from the shard at which it is rejected, one level deep
                if prune and deeper and rejected_for_good(prefix, lines[:-1]):
                    if rejected_for_good(prefix, lines[:-2]) and len(lines) > 1:
                        continue
                    visit(prefix, lines, alphabet, len(lines), check, report, prune, False)
                    continue
                visit(prefix, lines, alphabet, depth if deeper else len(lines), check, report, prune, False)
                if report.full:
                    break
            return report

        self.parallel(work, jobs)

    def explore_strings(self, name, alphabet, length, check, prefix='', suffix=''):
        """All strings of up to `length` characters over `alphabet`."""
        self.bound(f'{name}: all {"texts" if not prefix else "continuations"} of 0..{length} characters over '
                   f'{len(alphabet)} characters {alphabet!r}'
                   + (f' after {prefix!r}' if prefix else '') + (f' before {suffix!r}' if suffix else ''))
        split = min(2, length)

        def work(batch):
            report = Report()
            for head, deeper in batch:
                lengths = range(0, length - len(head) + 1) if deeper else (0,)
                for extra in lengths:
                    for rest in itertools.product(alphabet, repeat=extra):
                        text = prefix + head + ''.join(rest) + suffix
                        doc = Doc(text)
                        report.transitions += 1
                        check(text, doc, report)
                        if report.full:
                            return report
            return report

        jobs = [[(''.join(head), False) for n in range(split) for head in itertools.product(alphabet, repeat=n)]]
        jobs += [[(''.join(head), True)] for head in itertools.product(alphabet, repeat=split)]
        self.parallel(work, jobs)

    def explore_cases(self, name, cases, check, chunks=64):
        """check(case, report) on an explicit finite list of cases."""
        cases = list(cases)
        self.bound(f'{name}: {len(cases)} cases')
        count = max(1, min(chunks, len(cases)))

        def work(part):
            report = Report()
            for index in range(part, len(cases), count):
                report.transitions += 1
                check(cases[index], report)
                if report.full:
                    break
            return report

        self.parallel(work, range(count))

    # ------------------------------------------------------------ reporting

    def finish(self, module):
        report = self.report
        wall = time.time() - self.started
        coverage = {
            'states': len(report.states),
            'transitions': report.transitions,
            'traces_validated_against_impl': report.evaluations,
            'distinct_nontrivial': report.nontrivial,
            'rule': getattr(module, 'RULE', 'every case is enumerated once; non-trivial: see outcomes'),
            'exhaustive': not report.violations,
            'bounds': self.bounds,
            'outcomes': {str(key): value for key, value in report.outcomes.most_common(60)},
            'known_findings': sorted(report.known),
            'outside_model': {str(key): value for key, value in report.skipped.most_common(20)},
            'samples': report.samples[:12],
        }
        evidence = {
            'property': self.property,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'model_checking',
            'coverage': coverage,
            'assumptions': getattr(module, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2),
            'violations': len(report.violations),
        }
        path = os.path.join(EVIDENCE or os.path.join(VERIF, 'evidence'), f'{self.property}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as file:
            json.dump(evidence, file, indent=1, default=str)
            file.write('\n')
        return wall


def rejected_for_good(prefix, lines):
    if lines and prefix:
        text = prefix + '\n' + '\n'.join(lines)
    else:
        text = prefix + '\n'.join(lines)
    if not lines and not prefix:
        return False
    return for_good(Doc(text))


def for_good(doc):
    return doc.phase == 'analysis' and doc.errors[0].kind != 'unterminated_multiline_field'


def visit(prefix, lines, alphabet, depth, check, report, prune, doomed):
    text = '\n'.join(([prefix] if prefix else []) + list(lines))
    doc = Doc(text)
    report.transitions += 1
    check(text, doc, report)
    if report.full or doomed or len(lines) >= depth:
        return
    doomed = prune and for_good(doc)
    for line in alphabet:
        visit(prefix, lines + (line,), alphabet, depth, check, report, prune, doomed)
        if report.full:
            return
