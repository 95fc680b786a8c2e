"""Properties of the JavaScript library: what some of the checks of the Python library decide, decided for it.

Each part is the module of such a check. It runs unchanged, but for smaller spaces in the quick tier, on the bridge of
mc/js, which has the interface of the Python library."""

import importlib
import os
import time

from . import explore

QUICK = int(os.environ.get('VERIF_JS_DOCUMENTS', 40000))          # documents per space
THOROUGH = 600000


class Part(explore.Session):
    """A session with the bounds of the quick tier of the check, in the quick tier cut down to a number of documents."""

    def __init__(self, session, name):
        super().__init__(session.property, 'quick', session.seed)
        self.name = name
        self.limit = THOROUGH if session.thorough else QUICK
        self.patience = 7200 if session.thorough else 240

    def fit(self, choices, depth):
        while depth > 1 and choices ** depth > self.limit:
            depth -= 1
        return depth

    def bound(self, text):
        super().bound(f'{self.name}: {text}')

    def explore_lines(self, name, alphabet, depth, check, **options):
        super().explore_lines(name, alphabet, self.fit(len(set(alphabet)), depth), check, **options)

    def explore_strings(self, name, alphabet, length, check, **options):
        super().explore_strings(name, alphabet, self.fit(len(alphabet), length), check, **options)


def combine(*names):
    """RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay of a property that consists of those of these checks."""
    parts = {name: importlib.import_module(f'mc.props.{name}') for name in names}
    rule = 'JavaScript library; ' + '; '.join(f'as {name}: {module.RULE}' for name, module in parts.items())
    assumptions = ['the bridge passes requests and answers unchanged, but for the names']
    for module in parts.values():
        assumptions += [text for text in getattr(module, 'ASSUMPTIONS', []) if text not in assumptions]

    def run(session):
        known = list(explore.KNOWN)
        for name, module in parts.items():
            part = Part(session, name)
            explore.KNOWN[:] = [{**finding, 'case': finding['case']['case']} for finding in known if finding['case']['part'] == name]
            module.run(part)
            report = part.report
            if not report.violations and (not report.evaluations or len(report.outcomes) < getattr(module, 'MIN_OUTCOMES', 2)):
                raise explore.HarnessError(f'the exploration of {name} was vacuous')
            for violation in report.violations:
                violation['case'] = {'part': name, 'case': violation['case']}
                violation['message'] = f'(as {name}) ' + violation['message']
            session.bounds += part.bounds
            print(f'  as {name}: {report.evaluations} executions, {time.time() - part.started:.1f} s', flush=True)
            session.report.merge(report)
            if session.enough or report.violations:
                break

    def replay(case):
        return parts[case['part']].replay(case['case'])

    return rule, assumptions, 2, run, replay
