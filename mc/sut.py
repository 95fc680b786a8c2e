"""Access to the code under test, through its public interface only.

The package is imported from /repo's current working tree; byte code caches are kept out of the way, so
an edit is always seen.
"""

import json
import os
import signal
import sys
import tempfile
import threading
import time

REPO = os.environ.get('ENOLIB_REPO', '/repo')

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f'no-such-pycache-{os.getpid()}')
sys.path.insert(0, os.path.join(REPO, 'python'))

LANGUAGE = os.environ.get('VERIF_LANGUAGE', 'python')    # set by run.py

if LANGUAGE == 'python':
    import enolib                                        # noqa: E402
    from enolib import lookup, parse, register           # noqa: E402
    from enolib.error_types import Error, ParseError, ValidationError  # noqa: E402
    from enolib.messages import de, en, es               # noqa: E402
    from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter  # noqa: E402

    def scribble(element, name, *arguments):
        """Overwrite everything that can be overwritten in the answer to a request, or in the error it gives."""
        try:
            answer = getattr(element, name)(*arguments)
        except Error as error:
            answer = error
        for part in (answer.selection, answer.cursor) if isinstance(answer, Error) else (answer,):
            overwrite(part)

    def time_used():
        return time.process_time()

    def quiet(element, name, *arguments):
        """Perform a request, without looking at its answer."""
        getattr(element, name)(*arguments)

    if not os.path.realpath(enolib.__file__).startswith(os.path.realpath(os.path.join(REPO, 'python')) + os.sep):
        print(f'enolib comes from {enolib.__file__}, not from {REPO}/python', file=sys.stderr)
        sys.exit(2)
else:
    from .js.bridge import (Error, HtmlReporter, ParseError, TerminalReporter, TextReporter, ValidationError, de, en, es,  # noqa: E402
                            lookup, parse, quiet, register, scribble, steps, time_used)

LOCALES = {'en': en, 'de': de, 'es': es}
REPORTERS = {'text': TextReporter, 'html': HtmlReporter, 'terminal': TerminalReporter}


def catalog(module):
    return {name: value for name, value in vars(module).items()
            if not name.startswith('_') and (isinstance(value, str) or callable(value))}


def overwrite(value, seen=None):
    seen = set() if seen is None else seen
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, dict):
        for part in list(value.values()):
            overwrite(part, seen)
        for key in list(value):
            if not isinstance(value[key], (dict, list)):
                value[key] = 77
        value['scribble'] = True
    elif isinstance(value, list):
        for part in value:
            overwrite(part, seen)
        value.append('scribble')


class TaggedLocale:
    """A locale whose messages spell out which message it is and with which arguments."""

    content_header = en.content_header
    gutter_header = en.gutter_header


def _tagged(name):
    return lambda *args: json.dumps([name, *[a if isinstance(a, (str, int)) else str(a) for a in args]])


for _name, _value in catalog(en).items():
    if _name in ('content_header', 'gutter_header'):
        continue
    setattr(TaggedLocale, _name, staticmethod(_tagged(_name)) if callable(_value) else json.dumps([_name]))


def untag(text):
    """(kind, args) of a message produced with TaggedLocale; (None, text) for a custom message."""
    try:
        kind, *args = json.loads(text)
        return kind, tuple(args)
    except (ValueError, TypeError):
        return None, (text,)


class Rejected:
    """A library error, as a caller can observe it."""

    def __init__(self, error):
        self.type = 'parse' if isinstance(error, ParseError) else 'validation' if isinstance(error, ValidationError) else 'other'
        self.text = error.text
        self.kind, self.args = untag(error.text)
        self.snippet = error.snippet
        self.message = error.message
        self.string = str(error)
        self.selection = error.selection
        self.cursor = error.cursor

    def span(self):
        """((line, column, index), (line, column, index))"""
        return tuple((self.selection[end]['line'], self.selection[end]['column'], self.selection[end]['index'])
                     for end in ('from', 'to'))

    def key(self):
        return (self.type, self.text, self.snippet, self.span())

    def __repr__(self):
        return f'Rejected({self.type}, {self.kind}{self.args}, {self.span()})'


class Crash(Exception):
    """The library raised something else than its own errors."""

    def __init__(self, where, error):
        super().__init__(f'{where}: {type(error).__name__}: {str(error)[:200]}')


class Hang(BaseException):
    pass


class _Watch:
    """Notices a call into the library that does not come back: the same call is still running after two
    ticks of several seconds of processor time (a call on these tiny inputs takes well below 0.1 s)."""

    tick = 4.0
    calls = 0
    inside = False
    seen = None
    pid = None

    @classmethod
    def start(cls):
        if threading.current_thread() is not threading.main_thread():
            return
        cls.pid = os.getpid()
        signal.signal(signal.SIGVTALRM, cls.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, cls.tick, cls.tick)

    @classmethod
    def fire(cls, _number, _frame):
        if cls.inside and cls.seen == cls.calls:
            cls.seen = None
            raise Hang()
        cls.seen = cls.calls


def disarm():
    """Before the interpreter ends, or the timer ends it."""
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def attempt(function, *args, **kwargs):
    """Result of the call, or Rejected; any other exception becomes Crash."""
    if _Watch.pid != os.getpid():
        _Watch.start()
    _Watch.calls += 1
    _Watch.inside = True
    try:
        return function(*args, **kwargs)
    except Error as error:
        return Rejected(error)
    except RecursionError as error:
        raise Crash(getattr(function, '__name__', str(function)), RuntimeError('RecursionError')) from None
    except Hang:
        raise Crash(getattr(function, '__name__', str(function)), RuntimeError('does not terminate')) from None
    except Exception as error:
        raise Crash(getattr(function, '__name__', str(function)), error) from error
    finally:
        _Watch.inside = False


def load(text, locale=TaggedLocale, reporter=TextReporter, source=None):
    """Section or Rejected."""
    return attempt(parse, text, locale=locale, reporter=reporter, source=source)
