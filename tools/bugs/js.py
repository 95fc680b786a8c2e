BUGS = []
HEAD = '''
const { parse, lookup, register, ParseError, ValidationError, HtmlReporter, TerminalReporter } = require(process.argv[2]);
const expect = (got, wanted) => {
  if(JSON.stringify(got) !== JSON.stringify(wanted)) {
    console.error('got', JSON.stringify(got), 'rather than', JSON.stringify(wanted));
    process.exit(1);
  }
};
const error = action => {
  try { action(); } catch(thrown) { return thrown; }
  return null;
};
'''


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=HEAD + demo.strip() + '\n',
                     edits=[('javascript/lib/' + name, old, new) for name, old, new in edits]))


# ---------------------------------------------------------------- P30 reading

bug('p30-comment-continuation', 'P30', 'a comment directly above a direct line continuation, with an element following it directly',
    'the comment above a continuation becomes the comment of the element below it',
    [('analyze.js', """        lastContinuableElement.continuations.push(instruction);
      }

      if(comments) {
        this._meta.push(...comments);
        comments = null;
      }

    } else if(match[matcher.SECTION_OPERATOR_INDEX]""", """        lastContinuableElement.continuations.push(instruction);
      }

    } else if(match[matcher.SECTION_OPERATOR_INDEX]""")],
    "expect(parse('a: 1\\n> c\\n| 2\\nb: 3').field('b').optionalStringComment(), null);")

bug('p30-spacing', 'P30', 'an empty spaced continuation, followed by an empty direct one, and then by a direct one with a value',
    'the space of an empty spaced continuation is lost when another empty continuation follows',
    [('context.js', 'unappliedSpacing = unappliedSpacing || continuation.spaced;', 'unappliedSpacing = continuation.spaced;')],
    "expect(parse('a: 1\\n\\\\\\n|\\n| 2').field('a').requiredStringValue(), '1 2');")

bug('p30-end-after-section', 'P30', 'a continuation that follows a section without any element in between, or the end of a multiline field',
    'a continuation below the end of a multiline field continues the element above that field',
    [('analyze.js', """      lastSection.elements.push(instruction);

      lastContinuableElement = null;
      lastNonSectionElement = instruction;

      const keyEscaped""", """      lastSection.elements.push(instruction);

      lastNonSectionElement = instruction;

      const keyEscaped""")],
    "expect(error(() => parse('a: 1\\n-- m\\nx\\n-- m\\n| 2')) instanceof ParseError, true);")

bug('p30-sections', 'P30', 'a section that follows one two or more levels deeper',
    'a section two levels up is put one level too deep',
    [('analyze.js', """        while(instruction.depth < lastSection.depth) {
          lastSection = lastSection.parent;
        }
""", """        lastSection = lastSection.parent;

        if(instruction.depth < lastSection.depth && lastSection.parent.depth > 0) {
          lastSection = lastSection.parent;
        }
""")],
    "expect(parse('# a\\n## b\\n### c\\n#### d\\n# e').sections().map(s => s.stringKey()), ['a', 'e']);")

bug('p30-terminator', 'P30', 'a multiline field whose key has a character that is special in regular expressions, such as a vertical bar',
    'the end of multiline fields with a | in the key is looked for wrongly',
    [('analyze.js', r"replace(/[-/\\^$*+?.()|[\]{}]/g", r"replace(/[-/\\^$*+?.()[\]{}]/g")],
    "expect(parse('-- a|b\\nb\\n-- a|b').field('a|b').requiredStringValue(), 'b');")

bug('p34-value', 'P34', 'a field of which the value also is the end of its key, or a list item with the value -',
    'the position of a value that repeats the operator of its item is wrong',
    [('analyze.js', """        const valueIndex = this._input.indexOf(instruction.value, operatorIndex + 1);
        instruction.ranges.value = [valueIndex, valueIndex + instruction.value.length];
      }

      if(lastNonSectionElement === null) {""", """        const valueIndex = this._input.indexOf(instruction.value, operatorIndex);
        instruction.ranges.value = [valueIndex, valueIndex + instruction.value.length];
      }

      if(lastNonSectionElement === null) {""")],
    "expect(parse('a:\\n- -').list('a').items()[0].valueError('x').selection.from.column, 2);")

# ---------------------------------------------------------------- P31 copies

bug('p31-items', 'P31', 'a list with own items that is copied from a list with own items, which is itself copied from a list',
    'items that a template itself has copied are not copied',
    [('context.js', "list.computedItems = [...this.items(list.extend), ...list.items];", "list.computedItems = [...(list.extend.items || this.items(list.extend)), ...list.items];")],
    "expect(parse('a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b\\n- 3').raw().elements[2].items.length, 3);")

bug('p31-merge', 'P31', 'a deep copy that has two sections with the same key, of which the template has one',
    'one of several own sections with the same key is merged with that of the template',
    [('resolve.js', "if(elementInstruction.type !== SECTION || mergeMap.has(elementInstruction.key)) {", "if(elementInstruction.type !== SECTION) {")],
    "expect(parse('# a\\n## s\\nx: 1\\n# b << a\\n## s\\n## s').section('b').sections('s').map(s => s.elements().length), [0, 0]);")

bug('p31-comment', 'P31', 'a section with a comment of its own that is copied from one with a comment',
    'the comment of a copied section is replaced by that of its template',
    [('resolve.js', """  if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {
    section""", """  if(template.hasOwnProperty('comments') && (section.elements.length === 0 || !section.hasOwnProperty('comments'))) {
    section""")],
    "expect(parse('> 1\\n# a\\nx: y\\n> 2\\n# b < a').section('b').optionalStringComment(), '2');")

bug('p31-mirrored', 'P31', 'a fieldset that is copied without own entries, of which a third one is copied that has an entry of its own',
    'entries that an exact copy took over are not copied further',
    [('elements/fieldset.js', """      if(fieldset.hasOwnProperty('extend')) {
        this._instantiateEntries(fieldset.extend);
      }""", """      if(fieldset.hasOwnProperty('extend') && fieldset.extend.hasOwnProperty('entries')) {
        this._instantiateEntries(fieldset.extend);
      }""")],
    "expect(parse('a:\\nk = 1\\n\\nb < a\\n\\nc < b\\nl = 2').fieldset('c').entries().length, 2);")

bug('p31-own-key', 'P31', 'a section copied with its own key from an enclosing or another section, with that key used twice',
    'a section that is a copy of one with its own key counts as a second template',
    [('resolve.js', """         context.copy.sections.has(elementInstruction.key) &&
         elementInstruction.key !== elementInstruction.template) {""", """         context.copy.sections.has(elementInstruction.key) &&
         (elementInstruction.depth > 1 || elementInstruction.key !== elementInstruction.template)) {""")],
    "expect(parse('# a\\nx: 1\\n# b\\n## a < a').section('b').section('a').elements().length, 1);")

# ---------------------------------------------------------------- P32 queries

bug('p32-required', 'P32', 'allElementsRequired(false) on a section below which a list or fieldset was already queried',
    'the setting that everything is required is not taken back for nested fieldsets',
    [('elements/section.js', "element.toFieldset().allEntriesRequired(required);", "element.toFieldset().allEntriesRequired();")],
    "const d = parse('f:\\nk = 1'); const f = d.fieldset('f'); d.allElementsRequired(); d.allElementsRequired(false); expect(error(() => f.entry('x')), null);")

bug('p32-falsy', 'P32', 'a missing section of a missing section, asked for a required element without key',
    'what is missing in something missing is reported as missing itself',
    [('elements/missing/missing_element_base.js', "  _missingError(_element) {\n    this._parent._missingError(this);", "  _missingError(_element) {\n    this._parent._missingError(_element._key === null ? _element : this);")],
    "expect(error(() => parse('').section('a').section(null).requiredField('c')).text, error(() => parse('').section('a').requiredField('c')).text);")

bug('p32-yield', 'P32', 'an empty element that is used as a fieldset and afterwards as a field',
    'an element that was used as a fieldset can still be used as a field',
    [('elements/section_element.js', """      this._fieldset = new fieldset_module.Fieldset(this._context, this._instruction, this._parent);
      this._yielded = FIELDSET;""", """      this._fieldset = new fieldset_module.Fieldset(this._context, this._instruction, this._parent);
      this._yielded = this._instruction.type === FIELDSET && FIELDSET;""")],
    "const d = parse('a:'); d.fieldset('a'); expect(error(() => d.field('a')) !== null, true);")

bug('p32-loader', 'P32', 'a loader for the values of a list that gives a value that is undefined, 0 or empty',
    'falsy results of loaders are replaced by the value they were given',
    [('elements/value_element_base.js', """      return loader(value);
    } catch""", """      return loader(value) || (required ? value : null);
    } catch""")],
    "expect(parse('a: 0').field('a').requiredValue(Number), 0);")

bug('p32-plural', 'P32', 'a query for all lists with a key of which the second element is something else, or all without key',
    'the plural query for lists does not complain about fields that are not the first',
    [('elements/section.js', """      if(element._instruction.type !== LIST && element._instruction.type !== EMPTY_ELEMENT)
        throw errors.unexpectedElementType(this._context, key, element._instruction, 'expectedLists');
""", """      if(elements[0]._instruction.type !== LIST && element._instruction.type !== EMPTY_ELEMENT)
        throw errors.unexpectedElementType(this._context, key, element._instruction, 'expectedLists');
""")],
    "const got = error(() => parse('a:\\n- 1\\na: 2').lists('a')); expect(got.message.includes('lists were expected'), true);")

# ---------------------------------------------------------------- P33 errors and reports

bug('p33-type', 'P33', 'a value error on a field whose value consists of continuations only',
    'the selection of a value of nothing but continuations starts at the line instead of behind the operator',
    [('errors/validation.js', """      } else if(element.ranges.hasOwnProperty('entryOperator')) {
        select.from = cursor(element, 'entryOperator', END);
      } else if(element.type === LIST_ITEM) {
        select.from = cursor(element, 'itemOperator', END);
      } else {""", """      } else if(element.type === LIST_ITEM) {
        select.from = cursor(element, 'itemOperator', END);
      } else {""")],
    "expect(parse('a:\\nkey =   \\n| 1').fieldset('a').entry('key').valueError('x').selection.from.column, 5);")

bug('p33-context', 'P33', 'a report about a section whose elements have blank lines between them, with a section below',
    'blank lines before a nested section are not marked in reports',
    [('reporters/reporter.js', """      while(scanLine < element.line) {
        this._snippet[scanLine] = INDICATE;
        scanLine++;
      }

      if(!recursive""", """      while(scanLine < element.line && element.type !== SECTION) {
        this._snippet[scanLine] = INDICATE;
        scanLine++;
      }

      if(!recursive""")],
    "expect(parse('# a\\n\\n## b').section('a').error('x').snippet.split('\\n').map(line => line[1]).join(''), ' >**');")

bug('p33-omission', 'P33', 'a report with a gap of exactly one hidden line between two marked places',
    'the omission is missing where a gap in a report is followed by the displayed context of the next place',
    [('reporters/reporter.js', "} else if(this._snippet[line + 3] !== undefined && this._snippet[line + 3] !== DISPLAY) {", "} else if(this._snippet[line + 3] !== undefined && this._snippet[line + 3] === EMPHASIZE) {")],
    "expect(error(() => parse('a: 1\\n\\n\\n\\n\\n\\na: 2\\nb < a')).snippet.includes('...'), true);")

bug('p33-html', 'P33', 'a document with more than one character that needs escaping on a line, reported as HTML',
    'only the first special character of a line is escaped in HTML reports',
    [('reporters/html_reporter.js', """const escape = string => string.replace(/[&<>"'/]/g,""", """const escape = string => string.replace(/[&<>"'/]/,""")],
    "const got = error(() => parse('a: <b>&', { reporter: HtmlReporter }).list('a')); expect(got.snippet.includes('&lt;b&gt;&amp;'), true);")

bug('p33-message', 'P33', 'a validation error in Spanish about several lists with a key where one was expected',
    'the Spanish message about several lists names fieldsets',
    [('messages/es.js', "expectedSingleListWithKey: key => `", "expectedSingleListWithKey: key => key.length > 12 ? es.expectedSingleFieldsetWithKey(key) : `")],
    "const { es } = require(process.argv[2] + '/lib/messages/es.js'); const key = 'a long enough key'; expect(error(() => parse(`${key}:\\n- 1\\n${key}:\\n- 1`, { locale: es }).list(key)).text.includes('lista'), true);")

# ---------------------------------------------------------------- P34 lookup, parents, independence

bug('p34-comment-between', 'P34', 'a lookup by line of a comment or blank line between two continuations of a list item',
    'a comment between continuations is attributed to the list instead of the item',
    [('lookup.js', """    if(line === continuation.line)
      return { element: field, instruction: continuation };
    if(line < continuation.line)
      return { element: field, instruction: null };
""", """    if(line === continuation.line)
      return { element: field, instruction: continuation };
""")],
    "expect(lookup({ line: 3, column: 0 }, 'a:\\n- 1\\n| 2\\n> c\\n| 3\\n- 4').element.yieldsListItem && lookup({ line: 3, column: 0 }, 'a:\\n- 1\\n| 2\\n> c\\n| 3\\n- 4').element._instruction.value, '1');")

bug('p34-token', 'P34', 'a lookup at the position where one token ends and the next begins',
    'where two tokens touch the left one is given',
    [('lookup.js', "range[BEGIN] >= rightmostMatch) {", "range[BEGIN] >= rightmostMatch && (range[BEGIN] !== index || type !== 'value')) {")],
    "expect(lookup({ index: 2 }, 'a:b').range, 'value');")

bug('p34-multiline', 'P34', 'a lookup by index at the very end of a value line of a multiline field',
    'the end of a line within a multiline field belongs to the next line',
    [('lookup.js', "field.lines.find(line => index <= line.ranges.line[END])", "(field.lines.find(line => index < line.ranges.line[END]) || field.lines[field.lines.length - 1])")],
    "expect(lookup({ index: 6 }, '-- a\\nb\\n\\nc\\n-- a').range, 'value');")

bug('p34-parent', 'P34', 'the parent of a list or section that was reached by lookup in a nested section',
    'the parent of a looked up section is its own copy',
    [('elements/section.js', "    return this._parent || new Section(this._context, this._instruction.parent);", "    return this._parent || new Section(this._context, this._instruction.parent.parent && this._instruction.parent);")],
    "expect(lookup({ line: 0, column: 0 }, '# a').element.toSection().parent().raw().type, 'document');")

bug('p34-state', 'P34', 'reports of two documents with different languages, one after the other',
    'the header of reports is that of the first document that was reported',
    [('reporters/text_reporter.js', """    const gutterHeader = this._context.messages.gutterHeader.padStart(5);
    const columnsHeader = `""", """    INDICATORS.gutter = INDICATORS.gutter || this._context.messages.gutterHeader;
    const gutterHeader = INDICATORS.gutter.padStart(5);
    const columnsHeader = `""")],
    "const { de } = require(process.argv[2] + '/lib/messages/de.js'); parse('a: 1').error('x'); expect(parse('a: 1', { locale: de }).error('x').snippet.includes(de.gutterHeader), true);")

# ---------------------------------------------------------------- P35 histories, touching

bug('p35-except', 'P35', 'assertAllTouched on a section with a touched section in it that has an untouched element',
    'elements below a section that was queried are not checked for having been touched when the section is printed first',
    [('elements/section.js', """    for(const element of this._elements()) {
      const untouchedElement = element._untouched();

      if(untouchedElement) return untouchedElement;
    }

    return false;""", """    for(const element of this._elements()) {
      const untouchedElement = element._untouched();

      if(untouchedElement) return untouchedElement.type !== SECTION && untouchedElement;
    }

    return false;""")],
    "const d = parse('# a\\n## b'); d.section('a'); expect(error(() => d.assertAllTouched()) !== null, true);")

bug('p35-message', 'P35', 'assertAllTouched with a message function, called twice, or with only and except together',
    'only is ignored when except is given as well',
    [('elements/section.js', """      if(options.hasOwnProperty('except') && options.except.includes(key)) continue;
      if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;

      for(const element of elements) {""", """      if(options.hasOwnProperty('except')) {
        if(options.except.includes(key)) continue;
      } else if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;

      for(const element of elements) {""")],
    "expect(error(() => parse('a: 1\\nb: 2').assertAllTouched({ except: ['b'], only: ['b'] })), null);")

bug('p35-entries', 'P35', 'the entries of a fieldset are queried before and after they are asked for by key',
    'the entries of a fieldset lose their instances when some are queried by key',
    [('elements/fieldset.js', """      if(!entriesMap.has(key))
        return [];

      return entriesMap.get(key);""", """      if(!entriesMap.has(key))
        return [];

      return entriesMap.get(key).length === 1 ? entriesMap.get(key) : entriesMap.get(key).reverse();""")],
    "const f = parse('a:\\nk = 1\\nk = 2').fieldset('a'); f.entries('k'); expect(f.entries('k').map(e => e.requiredStringValue()), ['1', '2']);")

bug('p35-list', 'P35', 'a list of which the length is asked, before it is asserted that all elements were touched',
    'asking for the length of a list touches its items',
    [('elements/list.js', """  length() {
    this._touched = true;

    return this._items().length;""", """  length() {
    this._touched = true;

    return this._items().filter(item => item._touched = true).length;""")],
    "const d = parse('a:\\n- 1'); d.list('a').length(); expect(error(() => d.assertAllTouched()) !== null, true);")

bug('p35-values', 'P35', 'the values of a list are asked for while a loader complains about one of them, and asked for again',
    'a list that was asked for its values with a loader that complained gives fewer items afterwards',
    [('elements/list.js', """    return this._items().map(item => item.requiredValue(loader));""", """    const items = this._items();
    this._instantiatedItems = [];
    const values = items.map(item => item.requiredValue(loader));
    this._instantiatedItems = items;

    return values;""")],
    "const l = parse('a:\\n- 1').list('a'); error(() => l.requiredValues(() => { throw 'no'; })); expect(l.length(), 1);")
