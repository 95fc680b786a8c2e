import os
import runpy

G = runpy.run_path(os.path.join(os.path.dirname(__file__), 'one.py'))
BUGS = []
HEAD = G['HEAD']


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': HEAD.lstrip('\n') + demo.strip('\n') + '\n'})


bug('p09-items-in-place', 'P09', 'a list that extends another, of which the content is read twice',
    'reading the content of an extended list appends its items to those of the list it is copied from',
    [('context.py', """                list['computed_items'] = self.items(list['extend']) + list['items']
""", """                list['computed_items'] = self.items(list['extend'])
                list['computed_items'] += list['items']
""")],
    r"""document = parse('a:\n- 1\nb < a\n- 2')
first = document.raw()
expect(document.raw(), first)""")

bug('p10-third-level', 'P10', 'a section that extends a section that extends a section, of which the elements are queried',
    'elements are only copied over one level of extended sections when they are queried',
    [('elements/section.py', """            if 'extend' in section:
                self""", """            if 'extend' in section and section is self._instruction:
                self""")],
    r"expect(len(parse('# a\nx: 1\n# b < a\ny: 2\n# c < b\nz: 3').section('c').elements()), 3)")

bug('p11-mixed-kind', 'P11', 'a deep copy of a section that has a section and a field with the same key',
    'sections are merged although the template has something else with the same key',
    [('resolver.py', """                    if section_element['type'] is not InstructionType.SECTION or 'template' in merger:
""", """                    if section_element['type'] is not InstructionType.SECTION:
                        continue

                    if 'template' in merger:
""")],
    r"expect(len(parse('# a\nx: 1\n## x\ny: 2\n# b << a\n## x\nz: 3').section('b').section('x').elements()), 1)")

bug('p12-cycle-entry', 'P12', 'a cycle that is entered from an element that is not on it',
    'the report of a cycle marks elements that are not on it',
    [('errors/parsing.py', "feedback_chain = instruction_chain[first_occurrence:]", "feedback_chain = instruction_chain[min(first_occurrence, 1):]")],
    r"""snippet = error(parse, 'd < c\nc < b\nb < a\na < b').snippet
expect([line for line in snippet.split('\n') if 'd < c' in line and '*' in line], [])
expect([line for line in snippet.split('\n') if 'c < b' in line and '*' in line], [])""")

bug('p13-forward-chain', 'P13', 'copies of copies of which the templates all come later in the text',
    'copies of elements that are themselves copies and come later in the text stay empty',
    [('resolver.py', "if 'copy' in template: # TODO", "if 'copy' in template and (template['line'] < element['line'] or len(previous_elements) < 3): # TODO")],
    r"expect(parse('f < e\ne < d\nd < c\nc < b\nb < a\na: v').field('f').optional_string_value(), 'v')")

bug('p15-entry-parent', 'P15', 'an entry of a fieldset that is missing, of which a value is required',
    'a missing entry of a missing fieldset is reported as a missing element',
    [('elements/missing/missing_fieldset.py', "return MissingFieldsetEntry(key, self)", "return MissingFieldsetEntry(key, self._parent)")],
    r"""missing = parse('').fieldset('f').entry('e')
import enolib.messages.en as en
expect(error(missing.required_string_value).text, en.missing_fieldset_with_key('f'))""")

bug('p16-failing-key', 'P16', 'a loader that rejects the key of an element, and the check for untouched elements after it',
    'elements whose key was rejected by a loader do not count as touched',
    [('elements/element_base.py', """    def key(self, loader):
        self._touched = True

        try:
            return loader(self._key())
        except ValueError as message:
            raise Validation.key_error(self._context, message, self._instruction)
""", """    def key(self, loader):
        try:
            result = loader(self._key())
        except ValueError as message:
            raise Validation.key_error(self._context, message, self._instruction)

        self._touched = True

        return result
""")],
    r"""document = parse('f: v')
error(document.field('f').key, int)
document.assert_all_touched()""")

bug('p17-yielded-as', 'P17', 'a line without value that is used as a fieldset and then as something else',
    'the error about an empty element that was used as a fieldset says that it was used as an empty element',
    [('elements/section_element.py', "self._yielded = InstructionType.FIELDSET\n", "self._yielded = self._instruction['type']\n")],
    r"""element = parse('e:').element('e')
element.to_fieldset()
try:
    element.to_list()
except TypeError as raised:
    expect('fieldset' in str(raised), True)""")

bug('p19-first-wins', 'P19', 'a loader that is registered under a name that was registered before',
    'registering a name again leaves the first loader in place for keys and comments',
    [('register.py', """    setattr(ElementBase, f"{name}_key", lambda self: self.key(function))
    setattr(ElementBase, f"optional_{name}_comment",  lambda self: self.optional_comment(function))
    setattr(ElementBase, f"required_{name}_comment",  lambda self: self.required_comment(function))
""", """    if not hasattr(ElementBase, f"{name}_key"):
        setattr(ElementBase, f"{name}_key", lambda self: self.key(function))
        setattr(ElementBase, f"optional_{name}_comment",  lambda self: self.optional_comment(function))
        setattr(ElementBase, f"required_{name}_comment",  lambda self: self.required_comment(function))
""")],
    r"""enolib.register(twice=lambda value: 1)
enolib.register(twice=lambda value: 2)
expect(parse('f: v').field('f').twice_key(), 2)""")

bug('p21-last-item', 'P21', 'an error about a list of which the last item is continued',
    'the selection of a list ends before the continuations of its last item',
    [('errors/selections.py', """        return last_in(element['items'][-1])
""", """        return element['items'][-1]
""")],
    r"""selection = parse('l:\n- a\n| b').list('l').error('custom').selection
expect(selection['to']['line'], 2)""")

bug('p22-last-continuation', 'P22', 'an element missing in a section with a list of which the last item is continued, and something after it',
    'the continuation of the last item is marked wrongly when something is missing in its section',
    [('reporters/reporter.py', """            scan_line = self._tag_continuations(continuable, tag)
""", """            scan_line = continuable['line'] + 1
            self._tag_continuations(continuable, tag)
""")],
    r"""snippet = error(parse('# s\nl:\n- a\n| b\n\nf: v').section('s').required_field, 'x').snippet
expect([line[:2] for line in snippet.split('\n') if '| b' in line], [' ?'])""")

bug('p24-occurrence', 'P24', 'a line with a value that contains digits, brackets or letters like the codes of styles, and a key that does',
    'what is styled is looked for in what was styled before',
    [('reporters/terminal_reporter.py', """                    before = content[:range[BEGIN] - instruction['ranges']['line'][BEGIN]]
                    after = content[range[END] - instruction['ranges']['line'][BEGIN]:]
""", """                    position = content.rindex(self._context.input[range[BEGIN]:range[END]])
                    before = content[:position]
                    after = content[position + range[END] - range[BEGIN]:]
""")],
    r"""snippet = error(parse('m: v', reporter=TerminalReporter).required_field, 'x').snippet
import re
expect(re.sub('\x1b\\[[0-9]*m', '', snippet).endswith(' m: v'), True)""")


bug('p26-continuation-end', 'P26', 'the position right behind a continuation, looked up by index',
    'the end of a continuation line does not belong to the element',
    [('lookup.py', """        if index <= continuation['ranges']['line'][END]:
            return { 'element': field, 'instruction': continuation }""", """        if index < continuation['ranges']['line'][END]:
            return { 'element': field, 'instruction': continuation }""")],
    r"expect(enolib.lookup('f:\n| b', index=6)['range'], 'value')")

bug('p28-wide-space', 'P28', 'a no-break space between the operator of a continuation and its value',
    'only blanks and tabs are skipped before the value of spaced continuations',
    [('grammar_regex.py', r"""SPACED_LINE_CONTINUATION = rf"(\\)[^\S\n]*""", r"""SPACED_LINE_CONTINUATION = rf"(\\)[ \t]*""")],
    r"expect(parse('f: a\n\\\u00a0b').field('f').required_string_value(), 'a b')")

bug('p02-backtick-section', 'P02', 'an unescaped key of a section with a backtick in it',
    'the grammar no longer allows backticks inside unescaped keys of sections',
    [('grammar_regex.py', "SECTION_KEY_UNESCAPED = r'([^\\s`<][^<\\n]*?)'", "SECTION_KEY_UNESCAPED = r'([^\\s`<][^`<\\n]*?)'")],
    r"expect(parse('# a`b').section('a`b').string_key(), 'a`b')")

bug('p06-copied-blank', 'P06', 'an element that copies another and has a comment without text, while the other has one with text',
    'a comment without text is replaced by that of the template',
    [('resolver.py', """        # TODO: Do this lazily as todo'd elsewhere
        if 'comments' in template and not 'comments' in element:""", """        # TODO: Do this lazily as todo'd elsewhere
        if 'comments' in template and not any('comment' in comment for comment in element.get('comments', [])):""")],
    r"""document = parse('> text\na: v\n\n>\nb < a')
expect(document.field('b').optional_string_comment(), None)""")

bug('p18-touched-comment', 'P18', 'a comment that is asked for before the content of the element is read',
    'the content of an element with several comment lines loses its comment when it was asked for before',
    [('context.py', """        if 'comments' in element:
            result['comment'] = self.comment(element)
""", """        if 'comments' in element and 'computed_comment' not in element or len(element.get('comments', [])) == 1:
            result['comment'] = self.comment(element)
""")],
    r"""document = parse('> a\n> b\nf: v')
document.field('f').optional_string_comment()
expect(document.raw()['elements'][0].get('comment'), 'a\nb')""")

bug('p20-item-parent', 'P20', 'the parent of an item that is copied',
    'the parent of an item that is copied is the list it comes from',
    [('elements/list.py', "            return self._instantiate_items(list['extend']) + [list_item.ListItem(self._context, item, self) for item in list['items']]",
      "            return List(self._context, list['extend'], self._parent)._items() + [list_item.ListItem(self._context, item, self) for item in list['items']]")],
    r"expect(parse('a:\n- 1\nb < a\n- 2').list('b').items()[0].parent().string_key(), 'b')")

bug('p23-source', 'P23', 'a line of several characters with a meaning in HTML, one of them a quotation mark',
    'quotation marks are escaped twice in HTML reports',
    [('reporters/html_reporter.py', """{escape(content)}</div>\"""", """{escape(escape(content, False)) if '"' in content else escape(content)}</div>\"""")],
    r"""snippet = error(parse('f: "a&b"', reporter=HtmlReporter).required_field, 'x').snippet
expect('&amp;amp;' in snippet, False)""")
