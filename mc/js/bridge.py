"""The JavaScript library behind the interface of the Python library, so that the same checks decide both.

Every process of a check has a node process of its own (serve.js) that performs the calls."""

import ctypes
import itertools
import json
import os
import re
import resource
import select
import signal
import subprocess
import types
import weakref

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ENOLIB_REPO', '/repo')
LIBC = ctypes.CDLL(None)
SET_PARENT_DEATH_SIGNAL = 1              # of prctl
PATIENCE = 60                            # seconds for a call that takes well below one


class Error(Exception):
    def __init__(self, data):
        super().__init__(data['message'])
        self.text, self.snippet, self.message = data['text'], data['snippet'], data['message']
        self.selection, self.cursor = data['selection'], data['cursor']


class ParseError(Error):
    pass


class ValidationError(Error):
    pass


class JavaScriptError(Exception):
    """Anything else that was thrown."""


def snake(name):
    return re.sub('[A-Z]', lambda letter: '_' + letter.group().lower(), name)


def camel(name):
    return re.sub('_([a-z])', lambda letter: letter.group(1).upper(), name)


class Server:
    current = None

    def __init__(self):
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)

        def prepare():
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
            LIBC.prctl(SET_PARENT_DEATH_SIGNAL, signal.SIGKILL)        # even when it is caught in a call

        self.pid = os.getpid()
        self.process = subprocess.Popen(['node', '--max-old-space-size=1500', '--stack-size=900', os.path.join(HERE, 'serve.js'), REPO],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=prepare, bufsize=0)
        self.out = self.process.stdout.fileno()
        self.into = self.process.stdin.fileno()
        self.pending = b''
        self.functions = {}
        self.strangers = {}              # objects of Python that went through the library
        self.numbers = itertools.count()
        self.proxies = weakref.WeakValueDictionary()
        self.free = []
        self.methods = {}

    @classmethod
    def get(cls):
        if cls.current is None or cls.current.pid != os.getpid() or cls.current.process.poll() is not None:
            cls.current = cls()
        return cls.current

    def send(self, message):
        data = json.dumps(message).encode() + b'\n'
        while data:
            data = data[os.write(self.into, data):]

    def receive(self):
        while b'\n' not in self.pending:
            if not select.select([self.out], [], [], PATIENCE)[0]:
                self.process.kill()
                raise JavaScriptError('does not come back')
            part = os.read(self.out, 1 << 16)
            if not part:
                self.process.kill()
                raise JavaScriptError('the process of the library ended')
            self.pending += part
        line, self.pending = self.pending.split(b'\n', 1)
        return json.loads(line)

    def ask(self, **message):
        if self.free:
            message['free'], self.free = self.free, []
        self.send(message)
        while True:
            got = self.receive()
            if 'cb' not in got:
                break
            try:
                result = {'r': self.encode(self.functions[got['cb']](*[self.decode(part) for part in got['a']]))}
            except ValueError as error:
                result = {'t': str(error)}       # how loaders of the JavaScript library complain
            self.send(result)
        if 't' in got:
            self.complain(got['t'])
        return self.decode(got['r'])

    def complain(self, thrown):
        value = self.decode(thrown)
        if isinstance(value, Exception):
            raise value
        if isinstance(value, str) and 'yielded' in value:
            raise TypeError(value)
        raise JavaScriptError(f'{value!r} was thrown')

    def encode(self, value):
        if isinstance(value, Proxy):
            return {'h': value._id}
        if isinstance(value, (list, tuple)):
            return [self.encode(part) for part in value]
        if isinstance(value, dict):
            return {'o': [[key, self.encode(part)] for key, part in value.items()]}
        if callable(value):
            number = next(self.numbers)
            self.functions[number] = value
            return {'f': number, 'n': camel(getattr(value, '__name__', ''))}
        if value is None or isinstance(value, (str, int, float)):
            return value
        self.strangers[id(value)] = value
        return {'s': id(value)}

    def decode(self, value):
        if isinstance(value, list):
            return [self.decode(part) for part in value]
        if not isinstance(value, dict):
            return value
        if 'h' in value:
            proxy = self.proxies.get(value['h'])
            if proxy is None:
                if value['h'] in self.free:          # known again before it was forgotten
                    self.free.remove(value['h'])
                proxy = self.proxies[value['h']] = Proxy(self, value['h'], value['c'])
            return proxy
        if 's' in value:
            return self.strangers[value['s']]
        if 'e' in value:
            kind = {'parse': ParseError, 'validation': ValidationError, 'other': Error}[value['e']]
            return kind(value)
        if 'x' in value:
            return (IndexError if value['x'] == 'RangeError' and 'look' in value['m'] else JavaScriptError)(f"{value['x']}: {value['m']}"[:600])
        return {key: self.decode(part) for key, part in value['o']}


class Proxy:
    """An object of the JavaScript library with the names of the Python library."""

    def __init__(self, server, number, name):
        self._server, self._id, self._name = server, number, name

    def __del__(self):
        self._server.free.append(self._id)

    def __repr__(self):
        return self._server.ask(do='call', h=self._id, m='toString', a=[])

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        server = self._server
        if self._name not in server.methods:
            server.methods[self._name] = set(server.ask(do='methods', h=self._id))
        method = camel(name)
        if method not in server.methods[self._name]:
            raise AttributeError(f'{self._name} has no method {method}')

        def call(*arguments, **keywords):
            arguments = list(arguments)
            if 'message' in keywords:
                arguments.append(keywords.pop('message'))
            if 'skip' in keywords:
                keywords['except'] = keywords.pop('skip')
            options = {key: value for key, value in keywords.items() if value is not None}
            if options:
                arguments.append(options)
            before = set(server.functions)
            try:
                result = server.ask(do='call', h=self._id, m=method, a=[server.encode(argument) for argument in arguments])
            finally:
                for number in set(server.functions) - before:
                    del server.functions[number]
            return types_in_snake(result) if name == 'raw' else result

        call.__name__ = name
        return call


def types_in_snake(raw):
    if isinstance(raw, list):
        return [types_in_snake(part) for part in raw]
    if isinstance(raw, dict):
        return {key: snake(part) if key == 'type' else types_in_snake(part) for key, part in raw.items()}
    return raw


def scribble(proxy, name, *arguments):
    """Overwrite what can be overwritten in the answer to a request, or in the error it gives."""
    proxy._server.ask(do='scribble', h=proxy._id, m=camel(name), a=list(arguments))


def quiet(proxy, name, *arguments):
    """Perform a request, without its answer."""
    proxy._server.ask(do='quiet', h=proxy._id, m=camel(name), a=list(arguments))


def steps():
    """How much of the library was gone through since the last time."""
    return Server.get().ask(do='steps')


def time_used():
    """Processor time of the process of the library."""
    return Server.get().ask(do='time')


class Locale(types.SimpleNamespace):
    pass


def locale(name):
    """The messages of a language, as the modules of the Python library have them."""
    found = Locale(_js=name)
    for key, value in Server.get().ask(do='catalog', locale=name):
        if isinstance(value, int):
            def message(*arguments, _key=key):
                return Server.get().ask(do='message', locale=name, name=camel(_key), a=list(arguments))
            setattr(found, key, message)
        else:
            setattr(found, key, value)
    return found


en, de, es = locale('en'), locale('de'), locale('es')
TextReporter, HtmlReporter, TerminalReporter = 'text', 'html', 'terminal'


def options(locale=None, reporter=None, source=None):
    return {'locale': getattr(locale, '_js', 'tagged') if locale else None, 'reporter': reporter, 'source': source}


def parse(text, **given):
    return Server.get().ask(do='parse', text=text, **options(**given))


def lookup(text, index=None, line=None, column=None, **given):
    at = {name: value for name, value in (('index', index), ('line', line), ('column', column)) if value is not None}
    result = Server.get().ask(do='lookup', text=text, at=at, **options(**given))
    if isinstance(result, dict) and result.get('range'):
        result['range'] = snake(result['range'])
    return result


def register(*definitions, **named):
    server = Server.get()
    definitions = [{camel(name): function for name, function in definition.items()} if isinstance(definition, dict) else definition
                   for definition in [*definitions, *([named] if named else [])]]
    server.ask(do='register', definitions=server.encode(definitions))
    server.methods.clear()
