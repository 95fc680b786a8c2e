import os
import runpy

bug = runpy.run_path(os.path.join(os.path.dirname(__file__), 'js.py'))['bug']
BUGS = bug.__globals__['BUGS']
BUGS.clear()

# ---------------------------------------------------------------- P30 reading

bug('p30-indented-comment', 'P30', 'a comment of several lines of which the first has text and a later one has less indentation than it',
    'the indentation of comments of several lines is taken from the first line alone',
    [('context.js', """              if(indent < sharedIndent) {
                sharedIndent = indent;
              }
""", """              if(indent < sharedIndent && element.comments.length < 4) {
                sharedIndent = indent;
              }
""")],
    "expect(parse('>   a\\n> b\\n>  c\\n> d\\nx:').element('x').optionalStringComment(), '  a\\nb\\n c\\nd');")

bug('p30-escape', 'P30', 'a key escaped with two backticks that has spaces inside of these',
    'keys escaped with more than one backtick keep the spaces before their end',
    [('grammar_matcher.js', "const KEY_ESCAPED = `(\\`+)(?!\\`)[^\\\\S\\\\n]*(\\\\S[^\\\\n]*?)[^\\\\S\\\\n]*\\\\${KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`;",
      "const KEY_ESCAPED = `(\\`+)(?!\\`)[^\\\\S\\\\n]*(\\\\S[^\\\\n]*?) *\\\\${KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`;")],
    "expect(parse('`a\\t`: 1').element('a').toField().requiredStringValue(), '1');")

bug('p30-tabs', 'P30', 'a section with a key of its own and a template separated from it by a tab',
    'white space other than a space between the key of a section and its template becomes part of the key',
    [('grammar_matcher.js', "const SECTION = `${SECTION_OPERATOR}[^\\\\S\\\\n]*${SECTION_KEY}[^\\\\S\\\\n]*${SECTION_TEMPLATE}`;", "const SECTION = `${SECTION_OPERATOR}[^\\\\S\\\\n]*${SECTION_KEY} *${SECTION_TEMPLATE}`;")],
    "expect(parse('# a\\n# b\\t< a').sections().map(s => s.stringKey()), ['a', 'b']);")

bug('p30-lines', 'P30', 'a multiline field with a blank line right before its end',
    'blank lines at the end of multiline fields are dropped',
    [('analyze.js', """          lastNonSectionElement.end = instruction;
          lastNonSectionElement = null;
""", """          lastNonSectionElement.end = instruction;

          const { lines } = lastNonSectionElement;
          const last = lines[lines.length - 1];
          if(lines.length > 2 && last.ranges.line[0] === last.ranges.line[1]) { lines.pop(); }

          lastNonSectionElement = null;
""")],
    "expect(parse('-- a\\n1\\n2\\n\\n-- a').field('a').requiredStringValue(), '1\\n2\\n');")

bug('p30-item-comment', 'P30', 'two comment lines above a list item that follows another item',
    'comments of several lines above an item are not its comment',
    [('analyze.js', """      if(comments) {
        instruction.comments = comments;
        comments = null;
      }

      instruction.continuations = [];
      instruction.type = LIST_ITEM;""", """      if(comments) {
        instruction.comments = comments.slice(0, lastNonSectionElement && lastNonSectionElement.type === LIST ? 1 : comments.length);
        comments = null;
      }

      instruction.continuations = [];
      instruction.type = LIST_ITEM;""")],
    "expect(parse('a:\\n- 1\\n> x\\n> y\\n- 2').list('a').items()[1].optionalStringComment(), 'x\\ny');")

# ---------------------------------------------------------------- P31 copies

bug('p31-deep-comment', 'P31', 'a deep copy in which a nested section is merged that has no comment while its template does',
    'comments are not copied to sections that are merged',
    [('resolve.js', """  if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {
    section.comments = template.comments;
  }
""", """  if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments') && (!deepCopy || section.depth < 3)) {
    section.comments = template.comments;
  }
""")],
    "expect(parse('# a\\n## s\\n> c\\n### t\\nx: 1\\n# b << a\\n## s\\n### t\\ny: 2').section('b').section('s').section('t').optionalStringComment(), 'c');")

bug('p31-override', 'P31', 'a section that overrides two elements of its template that have the same key',
    'of several elements of a template with the same key only the first is overridden',
    [('elements/section.js', """      const nativeElements = section.elements.filter(element =>
        !this._instantiatedElementsMap.has(element.key)
      ).map(""", """      const nativeElements = section.elements.filter((element, index) =>
        !this._instantiatedElementsMap.has(element.key) || section.elements.findIndex(other => other.key === element.key) !== index
      ).map(""")],
    "expect(parse('# a\\nx: 1\\nx: 2\\n# b < a\\nx: 3').section('b').elements('x').length, 1);")

bug('p31-order', 'P31', 'a section of two levels of copies with own elements at each level',
    'the elements of the template of a template come last',
    [('elements/section.js', """      this._instantiatedElements.push(...nativeElements);""", """      if(section !== this._instruction && section.extend) {
        this._instantiatedElements.unshift(...nativeElements);
      } else {
        this._instantiatedElements.push(...nativeElements);
      }""")],
    "expect(parse('# a\\nx: 1\\n# b < a\\ny: 2\\n# c < b\\nz: 3').section('c').elements().map(e => e.stringKey()), ['x', 'y', 'z']);")

bug('p31-cycle', 'P31', 'a cycle of three or more sections',
    'cycles that do not lead back to the section at which they are entered are not found',
    [('resolve.js', """      resolveSection(context, template, [...previousSections, section]);
    }

    consolidateSections""", """      resolveSection(context, template, [...previousSections.slice(-2), section]);
    }

    consolidateSections""")],
    "const got = error(() => parse('# a < d\\n# b < a\\n# c < b\\n# d < c')); expect(got && got.name !== 'RangeError' && got instanceof ParseError, true);")

bug('p31-nested-copy', 'P31', 'a section copied by two others of which the first has a nested copy in it',
    'nested copies of a section are not resolved when it is the second section on its level',
    [('analyze.js', """        for(let parent = instruction.parent; parent.hasOwnProperty('parent'); parent = parent.parent) {
          parent.deepResolve = true;
        }""", """        instruction.parent.deepResolve = true;""")],
    "expect(parse('# b << a\\n# t\\nx: 1\\n# a\\n## m\\n### n < t').section('b').section('m').section('n').field('x').optionalStringValue(), '1');")

# ---------------------------------------------------------------- P32 queries

bug('p32-missing-list', 'P32', 'an element that does not exist, cast to a list, of which something required is asked',
    'what is missing is reported as an element instead of as a list',
    [('elements/missing/missing_section_element.js', "return new missing_list_module.MissingList(this._key, this._parent);", "return new missing_list_module.MissingList(this._key, this);")],
    "expect(error(() => parse('').element('a').toList().requiredStringComment()).text, error(() => parse('').list('a').requiredStringComment()).text);")

bug('p32-switch-off', 'P32', 'allElementsRequired switched on and off again on a document with sections',
    'that everything is required is not taken back for nested sections',
    [('elements/section.js', "element.toSection().allElementsRequired(required);", "element.toSection().allElementsRequired(required || element._section._allElementsRequired);")],
    "const d = parse('# s'); const s = d.section('s'); d.allElementsRequired(); d.allElementsRequired(false); expect(error(() => s.field('x')), null);")

bug('p32-yielded', 'P32', 'an empty element used as a fieldset and then as something else',
    'the error about an element that was already used as a fieldset says that it was used as a list',
    [('elements/section_element.js', "      this._yielded = FIELDSET;", "      this._yielded = this._instruction.type === FIELDSET ? FIELDSET : LIST;")],
    "const d = parse('a:'); d.element('a').toFieldset(); expect(String(error(() => d.element('a').toField())).includes('fieldset'), true);")

bug('p32-entry-name', 'P32', 'several entries without key where one is expected',
    'that several entries were found where any single one was expected is not noticed if the first has no value',
    [('elements/fieldset.js', "    if(entries.length > 1)\n", "    if(entries.length > 1 && (key !== null || entries[0]._instruction.value !== null))\n")],
    "expect(error(() => parse('a:\\nk =\\nl = 2').fieldset('a').entry()) instanceof ValidationError, true);")

bug('p32-required-comment', 'P32', 'a required comment of an element whose comment is blank',
    'a blank comment counts as a comment',
    [('elements/element_base.js', """    if(comment === null) {
      if(required)
        throw""", """    if(comment === null) {
      if(required && !this._instruction.hasOwnProperty('comments'))
        throw""")],
    "expect(error(() => parse('>\\na:').element('a').requiredStringComment()) instanceof ValidationError, true);")

bug('p32-loaded-null', 'P32', 'a loader given to optionalValues for a list with an empty item',
    'the values of the empty items of a list are left out',
    [('elements/list.js', "return this._items().map(item => item.optionalValue(loader));", "return this._items().map(item => item.optionalValue(loader)).filter((value, index) => value !== null || index === 0);")],
    "expect(parse('a:\\n- 1\\n-\\n- 2').list('a').optionalValues(Number), [1, null, 2]);")

# ---------------------------------------------------------------- P33 errors and reports


bug('p33-padding', 'P33', 'a report in which line 10, 20 … of a document is marked',
    'the number of every tenth line is not aligned in reports as text',
    [('reporters/text_reporter.js', "const number = (line + HUMAN_INDEXING).toString();", "const number = (line % 10 === 9 ? ' ' : '') + (line + HUMAN_INDEXING).toString();"),
     ('reporters/text_reporter.js', "number.padStart(this._gutterWidth - 3)", "number.padStart(this._gutterWidth - 3 + (line % 10 === 9 && line > 98 ? 1 : 0))")],
    "expect(parse('\\n'.repeat(99) + 'a: 1').error('x').snippet.split('\\n').pop().indexOf('|'), parse('a: 1').error('x').snippet.split('\\n').pop().indexOf('|'));")

bug('p33-multiple', 'P33', 'an error about four or more elements with the same key where one is expected',
    'a report about several elements marks the first three only',
    [('reporters/reporter.js', """  reportElements(elements) {
    for(const element of elements) {""", """  reportElements(elements) {
    for(const element of elements.slice(0, 3)) {""")],
    "expect(error(() => parse('a: 1\\na: 2\\na: 3\\na: 4').field('a')).snippet.split('\\n').filter(line => line.startsWith(' >')).length, 4);")

bug('p33-item-gap', 'P33', 'an error about a list with a comment or blank line between an item with a continuation and the next item',
    'blank lines between the items of a list are not marked in a report when the item above continues',
    [('reporters/reporter.js', """    for(const continuable of element[collection] || []) {
      while(scanLine < continuable.line) {""", """    for(const continuable of element[collection] || []) {
      while(scanLine < continuable.line && !(this._index[scanLine - 1].hasOwnProperty('spaced'))) {""")],
    "expect(error(() => parse('a:\\n- 1\\n| 2\\n\\n- 3').field('a')).snippet.split('\\n').filter(line => line.startsWith(' *')).length, 4);")

bug('p33-omitted-end', 'P33', 'a report of which the last marked line is three lines above the end of the document',
    'the omission at the end of a report is missing when just one line is hidden there',
    [('reporters/reporter.js', "      if(this._snippet[this._snippet.length - 1] === undefined) {", "      if(this._snippet[this._snippet.length - 1] === undefined && this._snippet[this._snippet.length - 2] === undefined) {")],
    "expect(error(() => parse('a:\\nb:\\nc:\\nd:').list('x')) === null && parse('a: 1\\nb:\\nc:\\nd:').field('a').valueError('x').snippet.endsWith('...'), true);")

bug('p33-terminal-order', 'P33', 'a report for the terminal of a copied element with an escaped key',
    'the ranges of a line are coloured in the wrong order when one of them is empty or at the same place',
    [('reporters/terminal_reporter.js', "ranges.sort((a,b) => a[1][0] < b[1][0] ? 1 : -1);", "ranges.sort((a,b) => a[1][0] % 10 < b[1][0] % 10 ? 1 : -1);")],
    "const got = parse('a long key: value', { reporter: TerminalReporter }).error('x').snippet; expect(got.replace(/\\x1b\\[\\d+m/g, '').includes('a long key: value'), true);")

bug('p33-selection-blank', 'P33', 'an error about a comment that is one blank line',
    'the selection of a blank comment is empty',
    [('errors/selections.js', "      return selection(comments[0], 'line', BEGIN, END);", "      return selection(comments[0], 'line', END);")],
    "const got = parse('>\\na:').element('a').commentError('x').selection; expect([got.from.column, got.to.column], [0, 1]);")

bug('p33-missing-item', 'P33', 'a required value of an item that has continuations which are all blank',
    'the selection of a missing value ends on the first line of the element',
    [('errors/validation.js', """    if(element.continuations && element.continuations.length > 0) {
      selection.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
    } else {
      selection.to = cursor(element, 'line', END);""", """    if(element.continuations && element.continuations.length > 0 && element.type === FIELD) {
      selection.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
    } else {
      selection.to = cursor(element, 'line', END);""")],
    "expect(error(() => parse('a:\\n- \\n|').list('a').requiredStringValues()).selection.to.line, 2);")

# ---------------------------------------------------------------- P34 lookup

bug('p34-gap', 'P34', 'a lookup by index of a blank line between two entries of a fieldset',
    'blank lines between entries belong to the entry above',
    [('lookup.js', """    if(index < entry.ranges.line[BEGIN])
      return { element: fieldset, instruction: null };""", """    if(index < entry.ranges.line[BEGIN])
      return { element: entry !== fieldset.entries[0] ? fieldset.entries[0] : fieldset, instruction: null };""")],
    "expect(lookup({ index: 9 }, 'a:\\nb = 1\\n\\nc = 2').element.yieldsFieldset(), true);")

bug('p34-end', 'P34', 'a lookup of the last character of the end of a multiline field',
    'the last position of a multiline field does not belong to it',
    [('lookup.js', "index > field.end.ranges.line[END])", "index >= field.end.ranges.line[END])")],
    "expect(lookup({ index: 10 }, '-- a\\nb\\n-- a').element.yieldsField() && lookup({ index: 11 }, '-- a\\nb\\n-- a').element.yieldsField(), true);")

bug('p34-last-line', 'P34', 'a lookup by line of the empty last line of a document',
    'the empty line at the end of a document cannot be looked up',
    [('lookup.js', "if(line < 0 || line >= context._lineCount)", "if(line < 0 || line >= context._lineCount - (line > 2 && input.endsWith('\\n') ? 1 : 0))")],
    "expect(error(() => lookup({ line: 3, column: 0 }, 'a: 1\\n\\n\\n')), null);")

bug('p34-section-comment', 'P34', 'a lookup by index in a comment inside of a nested section',
    'the token of a comment is not found below a section',
    [('lookup.js', "instruction = context._meta.find(instruction => instruction.line === line);", "instruction = context._meta.find(instruction => instruction.line === line && (match.element.depth || 0) < 2);")],
    "expect(lookup({ index: 12 }, '# a\\n## b\\n> comment\\n\\nc: 1').range !== null, true);")

# ---------------------------------------------------------------- P35 histories

bug('p35-nested', 'P35', 'assertAllTouched on a section with two sections of which the first was touched entirely',
    'of several sections only the first is looked at for elements that were not touched',
    [('elements/section.js', """      const untouchedElement = element._untouched();

      if(untouchedElement) return untouchedElement;""", """      const untouchedElement = element._untouched();

      if(untouchedElement || element._section && element._section._elements().length > 1) return untouchedElement;""")],
    "const d = parse('# s\\n## a\\nx: 1\\ny: 1\\n## b'); const s = d.section('s'); s.section('a').touch(); expect(error(() => d.assertAllTouched()) !== null, true);")

bug('p35-key-list', 'P35', 'the key of a list or fieldset is asked for before it is asserted that all elements were touched',
    'asking for the comment of a fieldset touches its entries',
    [('elements/fieldset.js', "const untouchedEntry = this._entries().find(entry => !entry._touched);", "const untouchedEntry = this._entries().find((entry, index) => !entry._touched && (index === 0 || this._entries()[0]._touched !== undefined || entry._instruction.value !== null));")],
    "const d = parse('a:\\nk = 1\\nl ='); const f = d.fieldset('a'); f.entry('k').touch(); expect(error(() => d.assertAllTouched()) !== null, true);")

bug('p35-errors', 'P35', 'two errors about the same comment or the same element in a row',
    'the second error on an element has another report',
    [('elements/element_base.js', """    return errors.elementError(
      this._context,
      typeof message""", """    this._instruction.comments = this._instruction.comments || [];

    return errors.elementError(
      this._context,
      typeof message""")],
    "const d = parse('a: 1'); const f = d.field('a'); f.error('x'); expect('comment' in f.raw(), false);")

bug('p35-elements', 'P35', 'the elements of a section are asked for by key, then all of them',
    'asking for elements by key changes what elements there are',
    [('elements/section.js', """      const elementsMap = this._elements(true);
      return elementsMap.has(key) ? elementsMap.get(key) : [];""", """      const elementsMap = this._elements(true);
      return elementsMap.has(key) ? elementsMap.get(key).splice(0, elementsMap.get(key).length > 1 ? 2 : 1) : [];""")],
    "const d = parse('a: 1\\na: 2'); d.elements('a'); expect(d.elements('a').length, 2);")

bug('p35-touch-list', 'P35', 'a section with lists is touched, of which one was used before',
    'touching a section does not touch the items of lists that were used before',
    [('elements/section_element.js', "    if(this._list) { this._list.touch(); }", "    if(this._list && !this._list._touched) { this._list.touch(); }")],
    "const d = parse('a:\\n- 1'); d.list('a').items(); d.touch(); expect(error(() => d.assertAllTouched()), null);")
