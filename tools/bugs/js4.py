import os
import runpy

bug = runpy.run_path(os.path.join(os.path.dirname(__file__), 'js.py'))['bug']
BUGS = bug.__globals__['BUGS']
BUGS.clear()

bug('p30-backtick-section', 'P30', 'an unescaped key of a section with a backtick in it',
    'the grammar no longer allows backticks inside unescaped keys of sections',
    [('grammar_matcher.js', r"'([^`\\s<][^<\\n]*?)'", r"'([^`\\s<][^`<\\n]*?)'")],
    r"expect(parse('# a`b').section('a`b').stringKey(), 'a`b');")

bug('p31-mixed-kind', 'P31', 'a deep copy of a section that has a section and a field with the same key',
    'sections are merged although the template has something else with the same key',
    [('resolve.js', """        if(elementInstruction.type !== SECTION || merger.hasOwnProperty('template')) {
""", """        if(elementInstruction.type !== SECTION) {
          continue;
        } else if(merger.hasOwnProperty('template')) {
""")],
    r"expect(parse('# a\nx: 1\n## x\ny: 2\n# b << a\n## x\nz: 3').section('b').section('x').elements().length, 1);")

bug('p31-third-level', 'P31', 'a section that extends a section that extends a section, of which the elements are queried',
    'elements are only copied over one level of extended sections when they are queried',
    [('elements/section.js', "      if(section.hasOwnProperty('extend')) {\n", "      if(section.hasOwnProperty('extend') && section === this._instruction) {\n")],
    r"expect(parse('# a\nx: 1\n# b < a\ny: 2\n# c < b\nz: 3').section('c').elements().length, 3);")

bug('p32-first-wins', 'P32', 'a loader that is registered under a name that was registered before',
    'registering a name again leaves the first loader in place for comments',
    [('register.js', """  ElementBase.prototype[`optional${titleCased}Comment`] = function() { return this.optionalComment(func); };
""", """  ElementBase.prototype[`optional${titleCased}Comment`] = ElementBase.prototype[`optional${titleCased}Comment`] || function() { return this.optionalComment(func); };
""")],
    r"""register({ twice: value => 1 });
register({ twice: value => 2 });
expect(parse('> c\nf: v').field('f').optionalTwiceComment(), 2);""")

bug('p32-entry-parent', 'P32', 'an entry of a fieldset that is missing, of which a value is required',
    'a missing entry of a missing fieldset is reported as a missing element',
    [('elements/missing/missing_fieldset.js', "MissingFieldsetEntry(key, this);", "MissingFieldsetEntry(key, this._parent);")],
    r"""let text = null;
try { parse('').fieldset('f').entry('e').requiredStringValue(); } catch(error) { text = error.text; }
expect(text, "The fieldset 'f' is missing - in case it has been specified look for typos and also check for correct capitalization.");""")

bug('p33-last-continuation', 'P33', 'an element missing in a section with a list of which the last item is continued, and something after it',
    'the continuation of the last item is marked wrongly when something is missing in its section',
    [('reporters/reporter.js', """      scanLine = this._tagContinuations(continuable, tag);
""", """      scanLine = continuable.line + 1;
      this._tagContinuations(continuable, tag);
""")],
    r"""let snippet = '';
try { parse('# s\nl:\n- a\n| b\n\nf: v').section('s').requiredField('x'); } catch(error) { snippet = error.snippet; }
expect(snippet.split('\n').filter(line => line.includes('| b')).map(line => line.slice(0, 2)).join(), ' ?');""")

bug('p33-last-item', 'P33', 'an error about a list of which the last item is continued',
    'the selection of a list ends before the continuations of its last item',
    [('errors/selections.js', "return lastIn(element.items[element.items.length - 1]);", "return element.items[element.items.length - 1];")],
    r"expect(parse('l:\n- a\n| b').list('l').error('custom').selection.to.line, 2);")

bug('p34-continuation-end', 'P34', 'the position right behind a continuation, looked up by index',
    'the end of a continuation line does not belong to the element',
    [('lookup.js', """    if(index <= continuation.ranges.line[END])
      return { element: field, instruction: continuation };""", """    if(index < continuation.ranges.line[END])
      return { element: field, instruction: continuation };""")],
    r"expect(lookup({ index: 6 }, 'f:\n| b').range, 'value');")

bug('p35-failing-key', 'P35', 'a loader that rejects the key of an element, and the check for untouched elements after it',
    'elements whose key was rejected by a loader do not count as touched',
    [('elements/element_base.js', """  key(loader) {
    this._touched = true;

    try {
      return loader(this._key());
    } catch(""", """  key(loader) {
    try {
      const result = loader(this._key());
      this._touched = true;
      return result;
    } catch(""")],
    r"""const parsed = parse('f: v');
try { parsed.field('f').key(() => { throw 'no'; }); } catch(_) {}
parsed.assertAllTouched();""")

bug('p35-items-in-place', 'P35', 'a list that extends another, of which the content is read twice',
    'reading the content of an extended list appends its items to those of the list it is copied from',
    [('context.js', """        list.computedItems = [...this.items(list.extend), ...list.items];
""", """        list.computedItems = this.items(list.extend);
        list.computedItems.push(...list.items);
""")],
    r"""const parsed = parse('a:\n- 1\nb < a\n- 2');
const first = JSON.stringify(parsed.raw());
expect(JSON.stringify(parsed.raw()), first);""")

bug('p36-cycle-entry', 'P36', 'a cycle that is entered from an element that is not on it, over another one',
    'the report of the JavaScript library for a cycle marks elements that are not on it',
    [('errors/parsing.js', "instructionChain.slice(firstOccurrence)", "instructionChain.slice(Math.min(firstOccurrence, 1))")],
    r"""let snippet = '';
try { parse('d < c\nc < b\nb < a\na < b'); } catch(error) { snippet = error.snippet; }
expect(snippet.split('\n').filter(line => line.includes('c < b') && line.includes('*')).length, 0);""")

bug('p36-forward-chain', 'P36', 'a chain of six copies of which the templates all come later in the text',
    'the JavaScript library leaves long chains of copies unresolved that go forward in the text',
    [('resolve.js', "  if(template.hasOwnProperty('copy')) { // TODO", "  if(template.hasOwnProperty('copy') && (template.line < element.line || previousElements.length < 3)) { // TODO")],
    r"expect(parse('f < e\ne < d\nd < c\nc < b\nb < a\na: v').field('f').optionalStringValue(), 'v');")
