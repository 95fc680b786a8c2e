import runpy, os
G = runpy.run_path(os.path.join(os.path.dirname(__file__), 'one.py'))
BUGS = []
HEAD = G['HEAD']


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': HEAD.lstrip('\n') + demo.strip('\n') + '\n'})


STEPS = '''
import sys
def steps(function):
    taken = [0]
    def trace(frame, event, arg):
        taken[0] += 1
        return trace
    sys.settrace(trace)
    try:
        function()
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return taken[0]
def linear(function):
    one, two, four = (steps(lambda: function(n)) for n in (20, 40, 80))
    expect(four - two < 3 * (two - one), True)
'''

bug('p29-pattern', 'P29', 'a line of thirty or more characters that are neither operators nor blanks, without any operator',
    'the time for rejecting a line grows exponentially with its length',
    [('grammar_regex.py', r"""KEY_UNESCAPED = r'([^\s>#\-`\\|:=<][^\n:=<]*?)'""", r"""KEY_UNESCAPED = r'([^\s>#\-`\\|:=<](?:[^\s:=<]+|[^\n:=<])*?)'""")],
    "import signal, time\nsignal.alarm(20)\nbegin = time.process_time()\nerror(parse, 'n' * 24)\nexpect(time.process_time() - begin < 1, True)")

bug('p29-chain', 'P29', 'a chain of copied sections that each have an element of their own, of which the elements are asked for',
    'elements of chains of copied sections are put together twice as often with every member',
    [('context.py', '''            if not 'computed_elements' in section:
                section['computed_elements_map'] = {}''', '''            if not 'computed_elements' in section or 'extend' in section:
                section['computed_elements_map'] = {}'''),
     ('context.py', '''copied_elements = [element for element in self.elements(section['extend']) if''', '''copied_elements = [element for element in (self.elements(section['extend']) and self.elements(section['extend'])) if''')],
    STEPS + "expect(steps(lambda: parse('# s0\\na: v' + ''.join(f'\\n# s{i + 1} < s{i}\\nb{i}: v' for i in range(15))).raw()) < 100000, True)")

bug('p29-untouched', 'P29', 'a section with many elements of different keys that is checked for untouched elements',
    'for every key of a section all its elements are gone through again',
    [('elements/section.py', """            for element in elements:
                untouched = element._untouched()
""", """            for element in self._elements():
                if element._instruction['key'] != key:
                    continue

                untouched = element._untouched()
""")],
    STEPS + """
def check(n):
    document = parse(''.join(f'a{i}: v\\n' for i in range(n)))
    document.touch()
    document.assert_all_touched()
linear(check)""")

bug('p29-index', 'P29', 'an error report about a list with many items',
    'for every item of a list that is reported on all items before it are gone through again',
    [('reporters/reporter.py', """            scan_line = self._tag_continuations(continuable, tag)
""", """            scan_line = max(self._tag_continuations(before, tag) for before in element[collection] if before['line'] <= continuable['line'])
""")],
    STEPS + """
linear(lambda n: parse('a:\\n' + '- i\\n' * n).list('a').error('message'))""")
