import runpy, os
G = runpy.run_path(os.path.join(os.path.dirname(__file__), 'one.py'))
BUGS = []
HEAD = G['HEAD']


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({'id': id, 'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': HEAD.lstrip('\n') + demo.strip('\n') + '\n'})


bug('p01-key-in-pattern', 'P01', 'a multiline field whose key contains an opening parenthesis or bracket, or begins with a repetition character',
    'the key of a multiline field is taken for a pattern, which raises or matches something else',
    [('analyzer.py', '''[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=''', '''[^\\S\\n]*({key.replace('.', '[.]')})[^\\S\\n]*(?=''')],
    "expect(parse('-- a (b\\nx\\n-- a (b').field('a (b').optional_string_value(), 'x')")

bug('p01-looked-up-comment', 'P01', 'a value error on a multiline field without lines',
    'complaining about the value of a multiline field without lines crashes',
    [('errors/validation.py', '''            if 'lines' in element:
                snippet = context''', '''            if context.value(element) is not None or 'comments' in element:
                snippet = context''')],
    "parse('> c\\n-- m\\n-- m').field('m').value_error('x')")

bug('p08-indented-escape', 'P08', 'an indented section line with an escaped key that is not terminated',
    'unterminated escaped keys of indented sections are reported as invalid lines',
    [('errors/parsing.py', '''^\\s*#*\\s*(`+)''', '''^(?:#*|\\s*)\\s*(`+)''')],
    "expect(error(parse, '  # `a').text, en.unterminated_escaped_key(1))")

bug('p08-continuation-below-multiline', 'P08', 'a continuation below a multiline field that follows a field',
    'a continuation below a multiline field continues the field above it instead of being rejected',
    [('analyzer.py', '''                last_section['elements'].append(instruction)
                last_continuable_element = None
                last_non_section_element = instruction

                if not terminator_match:''', '''                last_section['elements'].append(instruction)
                last_non_section_element = instruction

                if not terminator_match:''')],
    "expect(error(parse, 'a: 1\\n-- m\\nx\\n-- m\\n| 2').text, en.missing_element_for_continuation(5))")

bug('p08-continuation-below-copy', 'P08', 'a continuation below a copied field that follows another field',
    'a continuation below a copy continues the field above it instead of being rejected',
    [('analyzer.py', '''                last_section['elements'].append(instruction)
                last_continuable_element = None
                last_non_section_element = instruction

                if not hasattr(self._context, '_copy_non''', '''                last_section['elements'].append(instruction)
                last_non_section_element = instruction

                if not hasattr(self._context, '_copy_non''')],
    "expect(error(parse, 'a: 1\\nb < a\\n| 2').text, en.missing_element_for_continuation(3))")

bug('p13-template-with-copies', 'P13', 'a section copied from one further down that itself contains a copied section, whose template comes even later',
    'a template that contains copies is not resolved before it is copied from',
    [('resolver.py', '''            if 'copy'in template or 'deep_resolve' in template:''', '''            if 'copy'in template or 'deep_resolve' in template and section['line'] > template['line']:''')],
    "document = parse('# a << b\\n## c\\n### e\\nz: 1\\n# b\\n## c < d\\ny: 1\\n# d\\n## e\\nx: 1')\nexpect(len(document.section('a').section('c').section('e').elements()), 2)")

bug('p13-direct-parent', 'P13', 'a copy two levels below a section that is itself copied from further up',
    'only the section right above a copied section is resolved first',
    [('analyzer.py', '''                    while parent['type'] is not InstructionType.DOCUMENT:
                        parent['deep_resolve'] = True
                        parent = parent['parent']''', '''                    if parent['type'] is not InstructionType.DOCUMENT:
                        parent['deep_resolve'] = True''')],
    "document = parse('# x << a\\n## b\\n### c\\n#### f\\nz: 1\\n# a\\n## b\\n### c < d\\n# d\\n## f\\ny: 1')\nexpect(len(document.section('x').section('b').section('c').section('f').elements()), 2)")

bug('p20-lookup-in-section', 'P20', 'an element that is looked up in a section below a copied one',
    'the parent of an element below the first section of a higher level is the section it follows',
    [('analyzer.py', '''                        last_section = last_section['parent']
                        self._depth -= 1

                    instruction['parent'] = last_section['parent']''', '''                        last_section = last_section['parent']
                        self._depth -= 1

                    instruction['parent'] = last_section['parent']
                    last_section['elements'] and last_section['elements'][-1].update(parent=last_section['parent'])''')],
    "expect(lookup('# a\\n## b\\nx: 1\\n# c', index=4)['element'].to_section().parent().string_key(), 'a')")

bug('p20-copy-parent', 'P20', 'the elements of a section that is copied, asked for their parent',
    'copied elements have the section they are copied from as their parent',
    [('elements/section.py', '''        if 'mirror' in section:
            self._instantiate_elements(section['mirror'])
        else:
            def instantiate_and_index(element):
                instance = section_element.SectionElement(self._context, element, self)
''', '''        if 'mirror' in section:
            self._instantiate_elements(section['mirror'])
        else:
            def instantiate_and_index(element):
                instance = section_element.SectionElement(self._context, element, self if element['parent'] is section and 'comments' not in element else None)
''')],
    "expect(parse('# a\\n> c\\nx: 1\\n# b < a').section('b').field('x').parent().string_key(), 'b')")

bug('p22-nested-sections', 'P22', 'an error on a section with two levels of sections below it',
    'sections two levels below the one an error is about are not marked',
    [('reporters/reporter.py', '''            return self._tag_section(element, tag)
''', '''            return self._tag_section(element, tag, element['parent']['type'] is InstructionType.DOCUMENT)
''')],
    "expect(parse('# a\\n## b\\n### c\\nx: 1').section('a').error('x').snippet.count('*'), 3)")

bug('p22-question-below-fieldset', 'P22', 'a missing element of a section with a fieldset that has continuations with gaps',
    'gaps between entries are not marked',
    [('reporters/reporter.py', '''            self._snippet[continuable['line']] = tag

            scan_line = self._tag_continuations(continuable, tag)
''', '''            self._snippet[continuable['line']] = tag

            scan_line = max(continuable['line'] + 1, self._tag_continuations(continuable, tag) if 'continuations' in continuable else element['line'] + 1)
            scan_line = continuable['line'] + 1 if continuable is element[collection][-1] else scan_line
''')],
    "expect(parse('l:\\n- a\\n\\n\\n- b').list('l').error('x').snippet.count('*'), 4)")

bug('p22-source-empty', 'P22', 'a document with a source and a text report with 1000 lines or more',
    'line numbers above 999 are not aligned with those below',
    [('reporters/text_reporter.py', '''        return f" {INDICATORS[tag]}{number.rjust(self._gutter_width - 3)} | {content}"''',
      '''        return f" {INDICATORS[tag]}{number.rjust(self._gutter_width - 3)} | {content}" if line < 999 else f" {INDICATORS[tag]}{number.rjust(self._gutter_width - 4)} | {content}"''')],
    "expect(len({line.index('|') for line in parse('\\n' * 999 + 'a: 1', reporter=TextReporter).element('a').error('x').snippet.split('\\n') if '|' in line}), 1)")

bug('p23-unescaped-twice', 'P23', 'a document that contains character references such as &amp;',
    'character references in a document are shown as the characters they stand for',
    [('reporters/html_reporter.py', '''{escape(content)}</div>"''', '''{escape(content.replace('&amp;', '&'))}</div>"''')],
    "expect('a: &amp;amp;' in parse('a: &amp;', reporter=HtmlReporter).element('a').error('x').snippet, True)")

bug('p23-quoted-source', 'P23', 'an error on a line that contains a quote, in a document with several lines',
    'an angle bracket that closes nothing is left as it is',
    [('reporters/html_reporter.py', '''{escape(content)}</div>"''', '''{escape(content) if '<' in content or '&' in content else content}</div>"''')],
    "expect('a: 1 &gt; 0' in parse('a: 1 > 0', reporter=HtmlReporter).element('a').error('x').snippet, True)")

bug('p25-swapped', 'P25', 'a document in Spanish with a multiline field that is not terminated',
    'line and key are swapped in the Spanish message for unterminated multiline fields',
    [('messages/es.py', '''unterminated_multiline_field = lambda key, line:''', '''unterminated_multiline_field = lambda line, key:''')],
    "expect(\"'key'\" in es.unterminated_multiline_field('key', 7), True)")

bug('p25-braces', 'P25', 'German, a missing field whose key contains braces',
    'keys in German messages are formatted once more',
    [('messages/de.py', '''missing_list_with_key = lambda key: f"Die Liste '{key}' fehlt''', '''missing_list_with_key = lambda key: f"Die Liste '{key.replace('{', '').replace('}', '')}' fehlt''')],
    "expect(\"'{a}'\" in de.missing_list_with_key('{a}'), True)")

bug('p27-lookup-cache', 'P27', 'two lookups in the same text, in different languages or with something done to the element found first',
    'lookups in the same text share one document, whatever the options',
    [('lookup.py', '''def lookup(input: str, *, column=None, index=None, line=None, **options):
    context = Context(input, **options)
''', '''contexts = {}

def lookup(input: str, *, column=None, index=None, line=None, **options):
    if input not in contexts:
        contexts.clear()
        contexts[input] = Context(input, **options)

    context = contexts[input]
''')],
    "first = lookup('a: 1', index=0, locale=de)['element'].key_error('x').text\nexpect(lookup('a: 1', index=0, locale=en)['element'].key_error('x').text, en.key_error('x'))")

bug('p27-terminators', 'P27', 'two documents with multiline fields of the same key, but a different number of dashes',
    'how a multiline field ends is remembered by its key',
    [('analyzer.py', '''class Analyzer:
    def __init__''', '''TERMINATORS = {}

class Analyzer:
    def __init__'''), ('analyzer.py', '''                terminator_re = re.compile(rf"''', '''                terminator_re = TERMINATORS[key] if key in TERMINATORS else re.compile(rf"'''),
     ('analyzer.py', '''                terminator_match = terminator_re.search''', '''                TERMINATORS[key] = terminator_re
                terminator_match = terminator_re.search''')],
    "parse('-- a\\nx\\n-- a')\nparse('--- a\\nx\\n--- a')")

bug('p18-elements-in-place', 'P18', 'a copied section with elements of its own, whose error is reported before and after its elements were asked for',
    'asking for the elements of a copied section alters the section itself',
    [('context.py', '''                    section['computed_elements'] = copied_elements + section['computed_elements']
''', '''                    section['computed_elements'][:0] = copied_elements
''')],
    "document = parse('# a\\nx: 1\\n# b < a\\ny: 2')\nbefore = document.section('b').error('e').snippet\ndocument.raw()\nexpect(document.section('b').error('e').snippet, before)")

bug('p21-missing-template', 'P21', 'a copy without a value whose line has blanks at its end',
    'the selection for the missing value of a copy begins at the end of its line',
    [('errors/validation.py', '''            if 'template' in element['ranges']:
                selection['from'] = cursor(element, 'template', END)
            elif 'element_operator''', '''            if 'element_operator''')],
    "expect(error(parse('a:\\nb < a  ').field('b').required_string_value).selection['from']['column'], 5)")

bug('p26-multiline-end', 'P26', 'the very beginning of the line that ends a multiline field',
    'the first position of the line that ends a multiline field belongs to its value when looked up by index',
    [('lookup.py', '''    if index >= field['end']['ranges']['line'][BEGIN]:''', '''    if index > field['end']['ranges']['line'][BEGIN]:''')],
    "expect(lookup('-- a\\nx\\n-- a', index=7)['range'], 'multiline_field_operator')")

bug('p11-double-template', 'P11', 'a deep copy of a section that has two sections of the key that the copy has once',
    'of several sections with the same key in a template the last one is merged',
    [('resolver.py', '''                    if section_element['type'] is not InstructionType.SECTION or 'template' in merger:''', '''                    if section_element['type'] is not InstructionType.SECTION:''')],
    "expect(len(parse('# a\\n## s\\nx: 1\\n## s\\ny: 1\\n# b << a\\n## s\\nz: 1').section('b').section('s').elements()), 1)")

bug('p12-own-name', 'P12', 'a section that is copied from itself, where another section of that name exists',
    'a section named like its template counts as a template of itself',
    [('resolver.py', '''                if (self._unresolved_sections and
                    element['key'] in self._context._copy_sections and
                    ('template' not in element or element['key'] != element['template'])):''', '''                if (self._unresolved_sections and
                    element['key'] in self._context._copy_sections):''')],
    "expect(len(parse('# a\\n## b\\nx: 1\\n# b < b').section('b').elements()), 1)")

bug('p05-dashes-in-key', 'P05', 'a multiline field whose key begins with a dash, with a line in it that is almost its end',
    'a line with more dashes ends a multiline field whose key begins with dashes',
    [('analyzer.py', '''({operator})(?!-)[^\\S\\n]*(''', '''({operator})[^\\S\\n]*(''')],
    "expect(parse('-- -a\\n---a\\n-- -a').field('-a').optional_string_value(), '---a')")

bug('p10-extend-mirror', 'P10', 'a section copied from a copy that has elements of its own, without having any itself',
    'a copy of a copy with own elements only has those of the original template',
    [('resolver.py', '''        if len(section['elements']) == 0:
            self.mirror(section, template)''', '''        if len(section['elements']) == 0:
            self.mirror(section, template['extend'] if 'extend' in template and 'mirror' in template['extend'] else template)''')],
    "expect(len(parse('# a\\nx: 1\\n# b < a\\n# c < b\\ny: 1\\n# d < c').section('d').elements()), 2)")

bug('p14-map-after-copies', 'P14', 'a query by key in a section copied from one which has two elements of that key',
    'only the first of several copied elements with the same key is found by its key',
    [('elements/section.py', '''                instance = section_element.SectionElement(self._context, element, self)

                if element['key'] in self._instantiated_elements_map:''', '''                instance = section_element.SectionElement(self._context, element, self)

                if element['key'] in self._instantiated_elements_map and section is not self._instruction.get('extend'):''')],
    "expect(len(parse('# a\\nx: 1\\nx: 2\\n# b < a\\ny: 1').section('b').fields('x')), 2)")

bug('p06-first-indent', 'P06', 'a comment of several lines of which the first is indented further than a later one, and an empty one between',
    'empty lines in the middle of comments are indented like the lines around',
    [('context.py', '''                            if not 'comment' in comment:
                                return \'\'
''', '''                            if not 'comment' in comment:
                                return ' ' * max(0, comment['ranges']['line'][END] - comment['ranges']['line'][BEGIN] - shared_indent)
'''), ('context.py', 'from .constants import BEGIN, InstructionType', 'from .constants import BEGIN, END, InstructionType')],
    "expect(parse('> a\\n>      \\n> b\\nc:').element('c').optional_string_comment(), 'a\\n\\nb')")

bug('p03-escaped-twin', 'P03', 'a fieldset with two entries of the same key, one of them escaped',
    'an entry with an escaped key replaces an earlier one with the same key',
    [('analyzer.py', '''                    last_non_section_element['entries'].append(instruction)''', '''                    if unescaped_key is None:
                        last_non_section_element['entries'] = [entry for entry in last_non_section_element['entries'] if entry['key'] != instruction['key']]

                    last_non_section_element['entries'].append(instruction)''')],
    "expect(len(parse('a:\\nk = 1\\n`k` = 2').fieldset('a').entries('k')), 2)")

bug('p17-yields-list', 'P17', 'an empty element that was converted to a list and is then asked what else it can be',
    'what an element can be used as changes with its conversion',
    [('elements/section_element.py', '''            self._list = list.List(self._context, self._instruction, self._parent)
            self._yielded =  InstructionType.LIST''', '''            self._list = list.List(self._context, self._instruction, self._parent)
            self._yielded = InstructionType.LIST if self._instruction['type'] is InstructionType.LIST else self._instruction['type']''')],
    "element = parse('a:').element('a')\nelement.to_list()\nexpect('as list' in str(error_of(element.to_field)) or 'ist' in str(error_of(element.to_field)), True)")
