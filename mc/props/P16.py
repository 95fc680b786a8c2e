"""assert_all_touched finds exactly what was never looked at."""

import itertools

from .. import ref_errors, sut
from ..compare import error_difference
from ..docprop import guarded
from ..explore import Report
from ..ref_doc import Doc
from ..walk import accepts, children, follow, line_of, reach, walk, where

RULE = ('every document of the stated line forms, and on it every history of operations up to the stated length, and beyond '
        'it every history that leads to a new state of the model (which elements were looked at, and as what); after each of them '
        'every assertion; non-trivial: some but not all elements were looked at')
MIN_OUTCOMES = 4


def bad_loader(_value):
    raise ValueError('no')


VALUE_READS = {'optional_string_value': (), 'required_string_value': (), 'required_value': (bad_loader,), 'optional_value': (str,)}
# with an exclamation mark: with a loader that fails
EVERYWHERE = {'string_key': (), 'key': (str,), 'key!': (bad_loader,), 'optional_string_comment': (), 'required_comment': (str,),
              'optional_comment!': (bad_loader,), 'touch': ()}


TYPES = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
QUERIES = [prefix + as_kind for as_kind in TYPES for prefix in ('', 'optional_', 'required_')] + [as_kind + 's' for as_kind in TYPES if as_kind != 'empty']


def operations(doc, full, queries=False):
    """[path, as, method]: as None is the element as elements() gives it."""
    result = []
    for path, node, above in walk(doc):
        kind = doc.kind(node)
        forms = {'document': [''], 'section': ['section'], 'field': ['field'], 'multiline': ['field'], 'list': ['list'],
                 'fieldset': ['fieldset'], 'empty': ['empty', 'field', 'list', 'fieldset'], 'entry': [''], 'item': ['']}[kind]
        if kind not in ('document', 'entry', 'item'):
            for method in EVERYWHERE if full else ('string_key', 'touch'):
                result.append([list(path), None, method])
        for form in forms:
            methods = []
            if form in ('section', '') and kind in ('section', 'document'):
                methods = ['elements', 'optional_element']
                if queries:
                    keys = list(dict.fromkeys(child.key for child in children(doc, node)))
                    methods = [f'{query} {key}' for query in QUERIES for key in keys + ['absent']]
            elif form == 'list':
                methods = ['items', 'length', 'optional_string_values', 'required_string_values'] + (['optional_values!', 'required_values!'] if full else [])
            elif form == 'fieldset':
                methods = ['entries', 'optional_entry']
            elif form == 'field' or kind in ('entry', 'item'):
                methods = list(VALUE_READS) if full else ['optional_string_value']
            result.extend([list(path), form, method] for method in methods + (list(EVERYWHERE) if full else ['touch']) + ['look'])
    return result


class State:
    """Which elements (paths) were looked at, and as what each was obtained."""

    def __init__(self):
        self.touched = set()
        self.forms = {}

    def copy(self):
        other = State()
        other.touched = set(self.touched)
        other.forms = dict(self.forms)
        return other

    def key(self):
        return (tuple(sorted(self.touched)), tuple(sorted(self.forms.items())))


def model_step(doc, state, operation):
    """New state, or None if the element is in use as something else already."""
    path, form, method = tuple(operation[0]), operation[1], operation[2]
    state = state.copy()
    for depth in range(len(path)):
        state.touched.add(path[:depth])
        if doc.kind(follow(doc, path[:depth])) in ('section', 'list', 'fieldset'):
            state.forms[path[:depth]] = doc.kind(follow(doc, path[:depth]))
    if form:
        if state.forms.setdefault(path, form) != form:
            return None
    node = follow(doc, path)
    if method == 'look':
        return state
    state.touched.add(path)
    if ' ' in method:
        return query_step(doc, state, path, *method.split(' '))
    below = [path + (index,) for index in range(len(children(doc, node)))]
    if method == 'touch':
        state.touched.update(other for other, _, _ in walk(doc, node, path))
    elif method == 'optional_string_values':
        state.touched.update(below)
    elif method == 'required_string_values':
        for other, item in zip(below, doc.items(node)):
            state.touched.add(other)
            if doc.value(item) is None:
                break
    elif method in ('optional_values!', 'required_values!'):
        for other, item in zip(below, doc.items(node)):
            state.touched.add(other)
            if doc.value(item) is not None or method == 'required_values!':
                break
    return state


def query_step(doc, state, path, query, key):
    """What a query finds is obtained as what was asked for, but not looked at."""
    as_kind = query.split('_')[-1]
    found = [(index, child) for index, child in enumerate(children(doc, follow(doc, path))) if child.key == key]
    if as_kind in TYPES:
        if len(found) != 1:
            return state
    else:
        as_kind = as_kind[:-1]
    if as_kind == 'element':
        return state
    for index, child in found:
        if not accepts(doc.kind(child), as_kind):
            break
        if state.forms.setdefault(path + (index,), as_kind) != as_kind:
            return None
    return state


def perform(doc, document, operation):
    path, form, method = operation
    method, *key = method.split(' ')
    element = reach(doc, document, path, cast=False)
    if form:
        element = sut.attempt(getattr(element, 'to_' + form))
    if method == 'look':
        for name in ('raw', 'parent', '__repr__'):
            if hasattr(element, name):
                sut.attempt(getattr(element, name))
        for name in ('error', 'key_error', 'comment_error', 'value_error'):
            if hasattr(element, name):
                sut.attempt(getattr(element, name), 'message')
        for name in ('yields_field', 'yields_list', 'assert_all_touched'):
            if hasattr(element, name):
                sut.attempt(getattr(element, name))
        return
    if method in ('optional_values!', 'required_values!'):
        key = [bad_loader]
    arguments = key or EVERYWHERE.get(method, VALUE_READS.get(method, ('absent',) if method in ('optional_element', 'optional_entry') else ()))
    sut.attempt(getattr(element, method.rstrip('!')), *arguments)


def untouched(doc, state, path, only, skip):
    """Topmost elements below path that were never looked at."""
    result = []
    for index, child in enumerate(children(doc, follow(doc, path))):
        if skip and child.key in skip or only and child.key not in only:
            continue
        todo = [(path + (index,), child)]
        while todo:
            at, node = todo.pop()
            if at not in state.touched:
                result.append(node)
            else:
                todo.extend((at + (i,), grandchild) for i, grandchild in enumerate(children(doc, node)))
    return result


def assertions(doc, full):
    for path, node, _ in walk(doc):
        if doc.kind(node) not in ('document', 'section', 'fieldset'):
            continue
        yield [list(path), None, None, None]
        keys = list(dict.fromkeys(child.key for child in children(doc, node)))
        if not full or not keys:
            continue
        yield [list(path), 'text', None, None]
        yield [list(path), 'callable', None, None]
        for key in keys + ['absent']:
            yield [list(path), None, [key], None]
            yield [list(path), None, None, [key]]
            for other in keys:
                yield [list(path), None, [key], [other]]
        yield [list(path), 'callable', keys, keys[:1]]


def check_assertion(doc, document, state, assertion):
    """Problem, outcome."""
    path, how, only, skip = assertion
    state = state.copy()
    for depth in range(len(path)):       # on the way to the element that is asked
        state.touched.add(tuple(path[:depth]))
    element = reach(doc, document, path)
    open_ = untouched(doc, state, tuple(path), only, skip)
    seen = []

    def message(given):
        seen.append(given)
        return 'custom'

    options = {name: value for name, value in (('only', only), ('skip', skip)) if value is not None}
    arguments = {None: (), 'text': ('custom',), 'callable': (message,)}[how]
    got = sut.attempt(element.assert_all_touched, *arguments, **options)
    if not open_:
        if seen or got is not None:
            return f'everything was looked at, but got {got!r}', 'nothing'
        return None, 'nothing'
    difference = None
    for node in open_:
        error = ref_errors.unexpected_element(doc, node, 'custom' if how else None)
        difference = error_difference(doc, error, got, False, phase='validation')
        if difference is None:
            if how == 'callable':
                if len(seen) != 1 or where(seen[0]) != line_of(node) or seen[0].raw() != doc.raw(node):
                    return f'the message function was called with {seen}, not once with {node}', 'callable'
            return None, ('callable' if how == 'callable' else 'inside' if node not in children(doc, follow(doc, tuple(path))) else 'directly inside')
    return f'{open_} were not looked at: {difference}', 'untouched'


def run_case(case, report, doc=None, state=None):
    doc = doc or Doc(case['text'])
    if state is None:
        state = State()
        for operation in case['history']:
            state = model_step(doc, state, operation)
    try:
        document = sut.load(case['text'])
        for operation in case['history']:
            perform(doc, document, operation)
        for assertion in [case['assertion']] if 'assertion' in case else assertions(doc, case['full']):
            report.evaluations += 1
            problem, outcome = check_assertion(doc, document, state, assertion)
            report.outcomes[outcome] += 1
            for depth in range(len(assertion[0])):
                state.touched.add(tuple(assertion[0][:depth]))
            if problem:
                report.violation({**case, 'assertions up to': assertion},
                                 f"{case['text']!r}: after {case['history']}: assert_all_touched{assertion}: {problem}")
                return
    except sut.Crash as crash:
        report.violation(case, f"{case['text']!r}: {case['history']}: {crash}")


def replay(case):
    report = Report()
    run_case(case, report)
    return report.violations[0]['message'] if report.violations else None


def checker(length, most, full, queries=False):
    @guarded
    def check(text, doc, report):
        if not doc.ok or doc.outside_model:
            return
        count = len(list(walk(doc)))
        if count > most:
            return
        ops = operations(doc, full, queries)
        run_case({'text': text, 'history': [], 'full': True}, report, doc, State())
        seen = {State().key()}
        frontier = [((), State())]
        depth = 0
        while frontier:
            depth += 1
            following = []
            for history, state in frontier:
                for operation in ops:
                    after = model_step(doc, state, operation)
                    if after is None:
                        continue
                    key = after.key()
                    if key in seen and depth > length:
                        continue
                    report.transitions += 1
                    run_case({'text': text, 'history': [*history, operation], 'full': full or key not in seen}, report, doc, after.copy())
                    if report.full:
                        return
                    if key not in seen:
                        report.state((text, key))
                        if 0 < len(after.touched) < count:
                            report.nontrivial += 1
                            if report.nontrivial % 499 == 3:
                                report.sample({'document': text, 'history': [*history, operation]})
                    if key not in seen or depth < length:
                        following.append(([*history, operation], after))
                    seen.add(key)
            frontier = following
    return check


def run(session):
    more = session.pick(0, 1)
    session.explore_lines('all operations', ['a:', '> c\na: v', '- i', '-', 'k = e', '-- m\n-- m', '# s', '## t'], 2 + more, checker(2, 4, True))
    session.explore_lines('nesting', ['a:', 'b: v', '- i', '-', 'k = e', '# s', '## t'], 3 + more, checker(1, 5, False))
    session.explore_lines('copied elements', ['b < a', '# t < s', 'k = e', '- i'], 2 + more, checker(1, 6, False), prefix='a:\n- i\n# s\nx: y')
    session.explore_lines('copied from below', ['# t < s', '# s', 'x: y', '## u', 'f:\nk = e'], 3 + more, checker(1, 6, False))
    session.explore_lines('all queries', ['a:', 'a: v', 'l:\n- i', '## t', '## a'], 2 + more, checker(1, 5, False, True), prefix='# s')
    session.explore_lines('all queries after each other', ['a:', 'a: v', '# a'], 2 + more, checker(2, 3, False, True))
    after = ['## b', 'x:', 'f:\nm = e', 'z:\n- k', '# t', '### c']
    for what, inside in (('a section', '## a\nx: 1\ny: 2'), ('a fieldset', 'f:\nk = e\nl = e'), ('a list', 'l:\n- i\n- j')):
        session.explore_lines(f'after {what} with two parts', after, 1 + more, checker(1, 7, False), prefix='# s\n' + inside)
