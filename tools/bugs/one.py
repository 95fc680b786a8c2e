HEAD = '''
import sys
import enolib
from enolib import parse, lookup, register
from enolib.error_types import ParseError, ValidationError
from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter
from enolib.messages import de, en, es


def expect(actual, wanted):
    if actual != wanted:
        print('expected', repr(wanted), 'got', repr(actual))
        sys.exit(1)


def error(function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except (ParseError, ValidationError) as caught:
        return caught
    print('no error')
    sys.exit(1)


'''
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': HEAD.lstrip('\n') + demo.strip('\n') + '\n'})


bug('p01-cycle-of-four', 'P01', 'a cycle of copies with at least four members, entered from any of them',
    'the chain of elements being resolved only keeps the last ones, so a long cycle is followed until the recursion limit',
    [('resolver.py', 'self.resolve_non_section_element(template, [*previous_elements, element])',
      'self.resolve_non_section_element(template, [*previous_elements[-2:], element])')],
    "expect(type(error(parse, 'a < b\\nb < c\\nc < d\\nd < a')).__name__, 'ParseError')")

bug('p02-backtick-in-key', 'P02', 'an unescaped key with a backtick that is not at its beginning',
    'the grammar no longer allows backticks inside unescaped keys',
    [('grammar_regex.py', r"KEY_UNESCAPED = r'([^\s>#\-`\\|:=<][^\n:=<]*?)'", r"KEY_UNESCAPED = r'([^\s>#\-`\\|:=<][^\n`:=<]*?)'")],
    "expect(parse('a`b: c').field('a`b').required_string_value(), 'c')")

bug('p02-tabs-after-operator', 'P02', 'tabs between the operator and the value of an entry',
    'only blanks are skipped after the operator of a fieldset entry, tabs become part of the value',
    [('grammar_regex.py', r'FIELDSET_ENTRY = rf"(=)[^\S\n]*{OPTIONAL}"', r'FIELDSET_ENTRY = rf"(=) *{OPTIONAL}"')],
    "expect(parse('a:\\nk =\\tv').fieldset('a').entry('k').required_string_value(), 'v')")

bug('p03-item-after-section', 'P03', 'a list, then a section, then a list item',
    'a section line does not end the list before it',
    [('analyzer.py', '''                last_continuable_element = None
                last_non_section_element = None

            elif match.group(Grammar.MULTILINE''', '''                last_continuable_element = None

            elif match.group(Grammar.MULTILINE''')],
    "expect(error(parse, 'a:\\n- 1\\n# s\\n- 2').text, en.missing_list_for_list_item(4))")

bug('p03-copy-continuation', 'P03', 'a copy of an element right after another element, followed by a continuation',
    'a continuation below a copied element is added to the element before the copy',
    [('analyzer.py', '''                instruction['parent'] = last_section
                last_section['elements'].append(instruction)
                last_continuable_element = None
                last_non_section_element = instruction
''', '''                instruction['parent'] = last_section
                last_section['elements'].append(instruction)
                last_non_section_element = instruction
''')],
    "error(parse, 'a: 1\\nb < a\\n| 2')")

bug('p04-spacing-forgotten', 'P04', 'an empty spaced continuation, an empty direct continuation, then one with text',
    'an empty direct continuation cancels the spacing that is still to be applied',
    [('context.py', "unapplied_spacing = unapplied_spacing or 'spaced' in continuation", "unapplied_spacing = 'spaced' in continuation")],
    "expect(parse('a: 1\\n\\\\\\n|\\n| 2').field('a').required_string_value(), '1 2')")

bug('p04-spacing-sticks', 'P04', 'an empty spaced continuation, followed by two direct continuations with text',
    'spacing that was applied is applied again to the next continuation',
    [('context.py', '''                            element['computed_value'] += ' ' + continuation['value']
                            unapplied_spacing = None''', '''                            element['computed_value'] += ' ' + continuation['value']''')],
    "expect(parse('a: 1\\n\\\\\\n| 2\\n| 3').field('a').required_string_value(), '1 23')")

bug('p05-longer-terminator', 'P05', 'a line inside a multiline field that would close it but for more dashes',
    'a line with more dashes and the same key closes the field',
    [('analyzer.py', r'rf"\n[^\S\n]*({operator})(?!-)[^\S\n]*({re.escape(key)})[^\S\n]*(?=\n|$)"', r'rf"\n[^\S\n]*({operator})-*[^\S\n]*({re.escape(key)})[^\S\n]*(?=\n|$)"')],
    "expect(parse('-- a\\n--- a\\n-- a').field('a').required_string_value(), '--- a')")

bug('p05-key-prefix', 'P05', 'a line inside a multiline field with the same key and a comment-like rest',
    'a line that only begins like the closing line closes the field when the rest of it follows after a blank',
    [('analyzer.py', r'({re.escape(key)})[^\S\n]*(?=\n|$)"', r'({re.escape(key)})[^\S\n]*(?=\n|$|#)"')],
    "expect(parse('-- a\\n-- a #\\n-- a').field('a').required_string_value(), '-- a #')")

bug('p06-indent-first-line', 'P06', 'a comment of several lines whose first line is indented more than a later one',
    'the common indentation of a comment is taken from its first line that is not empty',
    [('context.py', '''                            indent = comment['ranges']['comment'][BEGIN] - comment['ranges']['line'][BEGIN]
                            if indent < shared_indent:''', '''                            indent = comment['ranges']['comment'][BEGIN] - comment['ranges']['line'][BEGIN]
                            if shared_indent is math.inf:''')],
    "expect(parse('>   x\\n> y\\na:').element('a').optional_string_comment(), '  x\\ny')")

bug('p06-comment-survives-continuation', 'P06', 'a comment between a value and its continuation, directly followed by another element below the continuation',
    'a comment above a continuation is attached to the next element instead of nothing',
    [('analyzer.py', '''                    last_continuable_element['continuations'] = [instruction]

                if comments is not None:
                    self._context.meta.extend(comments)
                    comments = None

            elif match.group(Grammar.DIRECT''', '''                    last_continuable_element['continuations'] = [instruction]

            elif match.group(Grammar.DIRECT''')],
    "expect(parse('a: 1\\n> c\\n\\\\ 2\\nb: 3').field('b').optional_string_comment(), None)")

bug('p07-two-levels-up', 'P07', 'a section two or more levels below the next one',
    'only one level is left when the next section is more than one level higher',
    [('analyzer.py', '''                    while new_depth < self._depth:
                        last_section = last_section['parent']
                        self._depth -= 1
''', '''                    last_section = last_section['parent']
                    self._depth = new_depth
''')],
    "expect([e.string_key() for e in parse('# a\\n## b\\n### c\\n# d').elements()], ['a', 'd'])")

bug('p08-first-line-skip', 'P08', 'a section that skips a level when another section was closed before',
    'the error for a skipped level marks the section that was closed instead of the one the new section is below',
    [('analyzer.py', '''raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)''',
      '''raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section['elements'][-1] if last_section['elements'] and last_section['elements'][-1]['type'] is InstructionType.SECTION else last_section)''')],
    "expect(error(parse, '# a\\n## b\\n# c\\n### d').snippet.count('*'), 1)\nexpect(error(parse, '### d').snippet.count('*'), 0)")

bug('p09-mirror-chain-comment', 'P09', 'a chain of copies in which only the middle one has a comment',
    'the comment is taken from the origin of a chain of copies rather than from the template',
    [('resolver.py', '''        # TODO: Do this lazily as todo'd elsewhere
        if 'comments' in template and not 'comments' in element:
            element['comments'] = template['comments']
''', '''        # TODO: Do this lazily as todo'd elsewhere
        origin = template.get('mirror', template)

        if 'comments' in origin and not 'comments' in element:
            element['comments'] = origin['comments']
''')],
    "expect(parse('a: 1\\n> x\\nb < a\\nc < b').field('c').optional_string_comment(), 'x')")

bug('p09-copied-entries', 'P09', 'a copied fieldset with own entries that is itself copied, where the second copy replaces an entry of the first one',
    'entries of a chain of copies are replaced in the origin only',
    [('context.py', "copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map']]",
      "replaced = { entry['key'] for entry in fieldset['entries'] } if 'extend' not in fieldset['extend'] else { fieldset['entries'][0]['key'] }\n                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in replaced]")],
    "expect([e['value'] for e in parse('a:\\nk = 1\\nb < a\\nl = 2\\nc < b\\nk = 3\\nl = 4').element('c').raw()['entries']], ['3', '4'])")

bug('p10-duplicate-keys', 'P10', 'a template with several elements of one key, none of which the copy has itself',
    'only the first of several template elements with the same key is copied',
    [('elements/section.py', '''            filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
            native_elements = [instantiate_and_index(element) for element in filtered]
''', '''            native_elements = []
            for element in section['elements']:
                if element['key'] not in self._instantiated_elements_map or section is self._instruction:
                    native_elements.append(instantiate_and_index(element))
''')],
    "expect(len(parse('# a\\nx: 1\\nx: 2\\n# b < a\\ny: 3').section('b').fields('x')), 2)")

bug('p11-merge-elements', 'P11', 'a deep copy where both sides have a section with the same key and the template has two of them',
    'a section is merged with the last of several template sections with its key',
    [('resolver.py', '''if section_element['type'] is not InstructionType.SECTION or 'template' in merger:''',
      '''if section_element['type'] is not InstructionType.SECTION:''')],
    "expect(parse('# a\\n## s\\nx: 1\\n## s\\ny: 2\\n# b << a\\n## s\\nz: 3').section('b').raw(), {'type': 'section', 'key': 'b', 'elements': [{'type': 'section', 'key': 's', 'elements': [{'type': 'field', 'key': 'z', 'value': '3'}]}]})")

bug('p12-nested-template-twice', 'P12', 'two possible templates for a section, on different levels',
    'sections below other sections are only considered as templates when there is none on the level above',
    [('resolver.py', '''                    if 'template' in copy_data:
                        raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)

                    copy_data['template'] = element
            elif''', '''                    if 'template' in copy_data and copy_data['template']['parent'] is element['parent']:
                        raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)

                    copy_data['template'] = element
            elif''')],
    "error(parse, '# a\\n## b\\nx: 1\\n# b\\ny: 2\\n# c < b')")

bug('p13-later-template', 'P13', 'a copy of a copy that stands before its template in the document, with a list',
    'a template that is itself a copy is only resolved first when it stands further up',
    [('resolver.py', '''        if 'copy' in template: # TODO: Maybe we change that to .unresolved everywhere ?
            self.resolve''', '''        if 'copy' in template and (template['line'] < element['line'] or template['type'] is not InstructionType.LIST): # TODO: Maybe we change that to .unresolved everywhere ?
            self.resolve''')],
    "expect(parse('c < b\\n- 3\\nb < a\\n- 2\\na:\\n- 1').list('c').required_string_values(), ['1', '2', '3'])")
