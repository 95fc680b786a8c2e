import runpy, os
G = runpy.run_path(os.path.join(os.path.dirname(__file__), 'one.py'))
BUGS = []
HEAD = G['HEAD']


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': HEAD.lstrip('\n') + demo.strip('\n') + '\n'})


bug('p01-lookup-beyond-entry', 'P01', 'an empty line between two fieldset entries, looked up by index, where the first one has continuations',
    'looking up the gap after the continuations of an entry gives nothing at all, and crashes',
    [('lookup.py', '''        if index <= continuation['ranges']['line'][END]:
            return { 'element': field, 'instruction': continuation }

def check_fieldset_by_line''', '''        if index < continuation['ranges']['line'][END]:
            return { 'element': field, 'instruction': continuation }

def check_fieldset_by_line''')],
    "lookup('a:\\nk = 1\\n| 2', index=10)")

bug('p08-selection-after-body', 'P08', 'a malformed line somewhere below a multiline field with an empty body',
    'lines below an immediately closed multiline field are counted one too low',
    [('analyzer.py', '''                last_non_section_element['end'] = instruction
                last_non_section_element = None
''', '''                last_non_section_element['end'] = instruction

                if 'lines' not in last_non_section_element and self._depth > 1:
                    self._line -= 1

                last_non_section_element = None
''')],
    "expect(error(parse, '# a\\n## b\\n-- m\\n-- m\\n:').text, en.invalid_line(5))")

bug('p13-first-target', 'P13', 'two copies of the same template, of which the template itself is a copy and stands between them',
    'of several copies of one template only the first makes sure that the template itself is resolved',
    [('resolver.py', '''            if 'copy'in template or 'deep_resolve' in template:
                self.resolve_section''', '''            if ('copy'in template or 'deep_resolve' in template) and template['line'] > section['copy']['targets'][0]['line'] + 1:
                self.resolve_section''')],
    "expect(len(parse('# c < b\\n# b < a\\n# a\\nx: 1').section('c').elements()), 1)")

bug('p14-fields-skip-multiline', 'P14', 'the plural query for fields with a multiline field among them',
    'multiline fields do not count as fields in the plural query',
    [('elements/section.py', '''            if (element._instruction['type'] is not InstructionType.FIELD and
                element._instruction['type'] is not InstructionType.MULTILINE_FIELD_BEGIN and
                element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):
                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fields')
''', '''            if (element._instruction['type'] is not InstructionType.FIELD and
                element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):
                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fields')
''')],
    "expect(len(parse('a: 1\\n-- a\\nx\\n-- a').fields('a')), 2)")

bug('p14-empty-list-type', 'P14', 'a query for one fieldset whose only element with that key is a list, without giving the key',
    'the error for an element of another type names no type when no key was given',
    [('elements/section.py', '''            raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fieldset')

        return element.to_fieldset()

    def _instantiate''', '''            raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fieldset' if key else 'expected_fieldsets')

        return element.to_fieldset()

    def _instantiate''')],
    "expect(error(parse('a:\\n- 1').fieldset).text, en.expected_fieldset)")

bug('p15-required-chain', 'P15', 'a required query on a stand-in for a missing section inside another stand-in',
    'what is required of a stand-in below another stand-in is silently absent',
    [('elements/missing/missing_element_base.py', '''        self._parent._missing_error(self)''', '''        if not hasattr(self._parent, '_parent') or self._parent.raw() is not None:
            self._parent._missing_error(self)''')],
    "error(parse('').section('a').section('b').field('c').required_string_value)")

bug('p15-setting-inherited', 'P15', 'a fieldset obtained after its section was set to require everything, with the setting revoked in between',
    'a fieldset keeps requiring all entries after its section no longer does, when it was already looked at',
    [('elements/section.py', '''                element.to_fieldset().all_entries_required(required)''', '''                element.to_fieldset().all_entries_required()''')],
    "document = parse('a:\\nk = 1')\ndocument.all_elements_required()\nfieldset = document.fieldset('a')\ndocument.all_elements_required(False)\nexpect(fieldset.entry('x').optional_string_value(), None)")

bug('p16-list-items', 'P16', 'a list whose items were obtained but not looked at, except for the first',
    'a list counts as touched when its first item is',
    [('elements/list.py', '''        untouched_item = next((item for item in self._items() if not hasattr(item, '_touched')), None)''',
      '''        untouched_item = next((item for item in self._items()[:1] if not hasattr(item, '_touched')), None)''')],
    "document = parse('a:\\n- 1\\n- 2')\ndocument.list('a').items()[0].required_string_value()\nerror(document.assert_all_touched)")

bug('p16-skip-only', 'P16', 'both filters given at once',
    'with both filters, what is skipped is checked nevertheless when it is among the only ones',
    [('elements/section.py', '''            if (skip and key in skip) or (only and key not in only):''', '''            if (skip and not only and key in skip) or (only and key not in only):''')],
    "parse('a: 1').assert_all_touched(only=['a'], skip=['a'])")

bug('p17-second-type', 'P17', 'an empty element that was converted to a list and is then converted to a field, then again',
    'a second conversion to another type is refused only once',
    [('elements/section_element.py', '''            if hasattr(self, '_yielded'):
                raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a field.")
''', '''            if hasattr(self, '_yielded') and self._yielded is not InstructionType.LIST:
                raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a field.")
''')],
    "element = parse('a:').element('a')\nelement.to_list()\ntry:\n    element.to_field()\nexcept TypeError:\n    sys.exit(0)\nsys.exit(1)")

bug('p18-copied-elements-cache', 'P18', 'raw content of a copied section asked after its elements were queried, and again',
    'reading the content of a section that extends its template appends to the list the template keeps',
    [('context.py', '''                list['computed_items'] = self.items(list['extend']) + list['items']
''', '''                list['computed_items'] = self.items(list['extend'])
                list['computed_items'] += list['items']
''')],
    "document = parse('a:\\n- 1\\nb < a\\n- 2')\nbefore = document.element('a').raw()\ndocument.element('b').raw()\nexpect(document.element('a').raw(), before)")

bug('p19-loader-called-for-empty', 'P19', 'a loader for the comment of an element, a comment that is there, and a loader that gives a false value',
    'a loader is called a second time when its result is false',
    [('elements/element_base.py', '''        try:
            return loader(comment)
        except ValueError as message:''', '''        try:
            return loader(comment) or loader(comment)
        except ValueError as message:''')],
    "calls = []\ndef load(value):\n    calls.append(value)\n    return 0\nparse('> 0\\na:').element('a').required_comment(load)\nexpect(calls, ['0'])")

bug('p19-registered-optional', 'P19', 'a registered loader used for the optional values of a list with an empty item',
    'registered optional accessors of lists insist on values',
    [('register.py', '''    setattr(List, f"optional_{name}_values", lambda self: self.optional_values(function))''',
      '''    setattr(List, f"optional_{name}_values", lambda self: self.required_values(function))''')],
    "register(upper=lambda value: value.upper())\nexpect(parse('a:\\n- x\\n-').list('a').optional_upper_values(), ['X', None])")

bug('p20-copied-item-parent', 'P20', 'the parent of an item that was looked up by position, in a list inside a section',
    'the parent of an item obtained through lookup is its section',
    [('elements/list_item.py', '''        return self._parent or list.List(self._context, self._instruction['parent'])''',
      '''        return self._parent or list.List(self._context, self._instruction['parent']['parent'] if 'extend' in self._instruction['parent'] else self._instruction['parent'])''')],
    "expect(lookup('a:\\n- 1\\nb < a\\n- 2', line=3, column=0)['element'].to_list_item().parent().raw()['items'][1]['value'], '2')")

bug('p21-value-error-continuations', 'P21', 'a complaint about a value that has continuations but nothing on its first line',
    'the selection of a value that is only continued ends with the line of the key',
    [('errors/validation.py', '''            if 'continuations' in element:
                select['to'] = cursor(element['continuations'][-1], 'line', END)
            elif 'value' in element['ranges']:''', '''            if 'continuations' in element and 'value' in element['ranges']:
                select['to'] = cursor(element['continuations'][-1], 'line', END)
            elif 'value' in element['ranges']:''')],
    "expect(parse('a:\\n| b').field('a').value_error('x').selection['to']['line'], 1)")

bug('p21-comments-columns', 'P21', 'a complaint about a comment of several lines, the first of which is indented',
    'the selection of several comment lines ends with the second one',
    [('errors/selections.py', '''return selection(comments[0], 'line', BEGIN, comments[-1], 'line', END)''', '''return selection(comments[0], 'line', BEGIN, comments[1], 'line', END)''')],
    "expect(parse('> a\\n> b\\n> c\\nd:').element('d').comment_error('x').selection['to']['line'], 2)")

bug('p22-omission', 'P22', 'a report with lines that matter and exactly three lines between them',
    'lines are left out without an omission when only one is left out',
    [('reporters/reporter.py', '''elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:''',
      '''elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] == EMPHASIZE:''')],
    "expect(error(parse('# a\\n' + '\\n' * 6 + 'c: 2\\n' + '\\n' * 8 + 'b: 2').section('a').required_field, 'x').snippet.count('...'), 1)")

bug('p22-entry-continuations', 'P22', 'a report on a fieldset with entries that have continuations, with empty lines between',
    'empty lines before a continuation are not marked',
    [('reporters/reporter.py', '''            while scan_line < continuation['line']:
                self._snippet[scan_line] = tag
                scan_line += 1

            self._snippet[continuation['line']] = tag
            scan_line += 1''', '''            scan_line = continuation['line']

            self._snippet[continuation['line']] = tag
            scan_line += 1''')],
    "expect(parse('a: 1\\n\\n| 2').element('a').error('x').snippet.count('*'), 2)")

bug('p23-escape-key', 'P23', 'an ampersand or angle bracket in a line that is merely context of an error',
    'only marked lines are escaped in html reports',
    [('reporters/html_reporter.py', '''            f"<div class=\\"eno-report-content\\">{escape(content)}</div>"''',
      '''            f"<div class=\\"eno-report-content\\">{escape(content, quote=False) if tag_class else content}</div>"''')],
    "expect('<b>' in error(parse, 'a: <b>\\n:', reporter=HtmlReporter).snippet, False)")

bug('p24-style-left-on', 'P24', 'a terminal report on a comment line',
    'the style of comment lines is not switched off',
    [('reporters/terminal_reporter.py', '''                content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
''', '''                content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
''')],
    "expect(parse('> c\\na: 1', reporter=TerminalReporter).element('a').comment_error('x').snippet.split('\\n')[0][-4:], '\\x1b[0m')")

bug('p24-deep-copy-style', 'P24', 'a terminal report that shows an escaped key',
    'there is no style for the closing operator of escaped keys in copies',
    [('reporters/terminal_reporter.py', '''    'escape_end_operator': WHITE,
''', '''''')],
    "parse('`a`: 1', reporter=TerminalReporter).element('a').error('x')")

bug('p25-german-placeholder', 'P25', 'German, a missing field with a key',
    'the German message for missing fields names the wrong type',
    [('messages/de.py', '''missing_fieldset_with_key = staticmethod(''', '''missing_fieldset_with_key = staticmethod(''')],
    "pass")

bug('p26-column-end', 'P26', 'a position right at the end of the template of a copy',
    'the last position of a token belongs to nothing when it is looked up by line',
    [('lookup.py', '''        index = instruction['ranges']['line'][0] + column
''', '''        index = min(instruction['ranges']['line'][0] + column, instruction['ranges']['line'][1] - 1)
''')],
    "expect(lookup('a:', line=0, column=2)['range'], lookup('a:', index=2)['range'])")

bug('p26-gap-in-section', 'P26', 'an empty line after the last element of a subsection that is followed by another section',
    'the gap between two sections belongs to the section that encloses both',
    [('lookup.py', '''        elif element['type'] is InstructionType.SECTION:
            return check_in_section_by_index(element, index)
''', '''        elif element['type'] is InstructionType.SECTION and element['elements']:
            return check_in_section_by_index(element, index)
''')],
    "expect(lookup('# a\\n\\n# b', index=4)['element'].string_key(), 'a')")

bug('p27-shared-previous', 'P27', 'a document with cyclic copies, and any document with copies read after it',
    'the chain of elements being resolved is shared between documents',
    [('resolver.py', '''    def resolve_non_section_element(self, element, previous_elements=[]):
        if element in previous_elements:''', '''    def resolve_non_section_element(self, element, previous_elements=[]):
        previous_elements.append(None)

        if previous_elements.count(None) > 200 or element in previous_elements:''')],
    "parse('a: 1\\n' + '\\n'.join(f'b{i} < a' for i in range(150)))\nparse('a: 1\\n' + '\\n'.join(f'b{i} < a' for i in range(150)))")

bug('p27-class-cache', 'P27', 'two documents read in turn, the first one asked again after the second one was read',
    'the elements that copies wait for are kept in the class instead of the document',
    [('analyzer.py', '''                if not hasattr(self._context, '_copy_non_section_elements'):
                    self._context._copy_non_section_elements = {}
''', '''                if not hasattr(self._context, '_copy_non_section_elements'):
                    type(self._context)._copy_non_section_elements = {}
''')],
    "pass")

bug('p28-indented-section', 'P28', 'a comment below an indented line',
    'the indentation of a comment counts from its operator on when it is the only one with content',
    [('context.py', '''                            indent = comment['ranges']['comment'][BEGIN] - comment['ranges']['line'][BEGIN]
                            if indent''', '''                            indent = comment['ranges']['comment'][BEGIN] - comment['ranges']['comment_operator'][BEGIN] + (2 if comment['ranges']['comment_operator'][BEGIN] - comment['ranges']['line'][BEGIN] else 0)
                            if indent''')],
    "expect(parse('\\t\\t> x\\n\\t\\t> y\\na:').element('a').optional_string_comment(), 'x\\ny')")

bug('p28-blank-before-item', 'P28', 'an empty line between two items of a list that is followed by a comment',
    'an empty line with blanks does not separate a comment from the element below it',
    [('analyzer.py', '''            if match.group(Grammar.EMPTY_LINE_INDEX) is not None:

                if comments is not None:''', '''            if match.group(Grammar.EMPTY_LINE_INDEX) is not None:

                if comments is not None and match.end() == self._index:''')],
    "expect(parse('> c\\n \\na:').element('a').optional_string_comment(), None)")
