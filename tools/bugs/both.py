import os
import runpy

HERE = os.path.dirname(__file__)
py = runpy.run_path(os.path.join(HERE, 'one.py'))['bug']
js = runpy.run_path(os.path.join(HERE, 'js.py'))['bug']
py.__globals__['BUGS'].clear()
js.__globals__['BUGS'].clear()

# ---------------------------------------------------------------- P36 agreement of the libraries

py('p36-pending-comment', 'P36', 'comment lines above a direct continuation of a field, looked up',
   'the Python library forgets comments above direct continuations, which the JavaScript library keeps',
   [('analyzer.py', """                value = match.group(Grammar.DIRECT_LINE_CONTINUATION_VALUE_INDEX)
""", """                value, comments = match.group(Grammar.DIRECT_LINE_CONTINUATION_VALUE_INDEX), None
""")],
   "expect(lookup('a: b\\n> c\\n| d', index=7)['range'], 'comment')")

py('p36-list-comment', 'P36', 'a list with a comment that is copied by a list with items of its own',
   'the Python library lets extended lists have no comment, the JavaScript library copies it',
   [('resolver.py', "        if 'comments' in template and not 'comments' in element:\n            element['comments']", "        if 'comments' in template and not 'comments' in element and not 'items' in element:\n            element['comments']")],
   "expect(parse('> c\\na:\\n- i\\nb < a\\n- j').list('b').optional_string_comment(), 'c')")

js('p36-message', 'P36', 'an entry that is missing in a fieldset, in Spanish',
   'the message of the JavaScript library for a missing fieldset entry is that for a missing field in Spanish',
   [('messages/es.js', "missingFieldsetEntryWithKey: (key) => `Falta la casilla de collecíon '${key}'", "missingFieldsetEntryWithKey: (key) => `Falta la casilla '${key}'")],
   """const { es } = require(require('path').join(process.argv[2], 'lib/messages/es.js'));
expect(error(() => parse('a:\\nk = v', { locale: es }).fieldset('a').requiredEntry('x')).text.startsWith('Falta la casilla de colle'), true);""")

js('p36-item-tab', 'P36', 'a tab between the operator and the value of a list item',
   'the JavaScript library takes a tab before the value of an item for a part of it',
   [('grammar_matcher.js', "const LIST_ITEM = `(-)(?!-)[^\\\\S\\\\n]*${OPTIONAL}`;", "const LIST_ITEM = `(-)(?!-) *${OPTIONAL}`;")],
   "expect(parse('a:\\n-\\ti').list('a').requiredStringValues(), ['i']);")

js('p36-order', 'P36', 'a fieldset that extends another one and overrides an entry of it that comes first there',
   'the JavaScript library puts entries of fieldsets that override copied ones first',
   [('elements/fieldset.js', "      this._instantiatedEntries.push(...nativeEntries);", "      if(fieldset.hasOwnProperty('extend') && nativeEntries.length === 1 && fieldset.extend.hasOwnProperty('entries') && fieldset.extend.entries[0].key === nativeEntries[0]._instruction.key)\n        this._instantiatedEntries.unshift(...nativeEntries);\n      else\n        this._instantiatedEntries.push(...nativeEntries);")],
   "expect(parse('a:\\nk = 1\\nl = 2\\nb < a\\nk = 3').fieldset('b').entries().map(entry => entry.stringKey()), ['l', 'k']);")

py('p36-three-backticks', 'P36', 'a key escaped with two backticks that itself contains a backtick, in a fieldset entry',
   'the Python library ends keys at the first backtick, the JavaScript library at as many as there were at the beginning',
   [('grammar_regex.py', r'''KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*(\S[^\n]*?)[^\S\n]*(\{KEY_ESCAPE_BEGIN_OPERATOR_INDEX})"
    KEY_ESCAPED_INDEX''', r'''KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*([^\s`][^`\n]*?|`[^\n]*?)[^\S\n]*(\{KEY_ESCAPE_BEGIN_OPERATOR_INDEX})"
    KEY_ESCAPED_INDEX''')],
   "expect(parse('``a`b``: 1').field('a`b').required_string_value(), '1')")

py('p36-deep-level', 'P36', 'a section of the fourth level after one of the fifth',
   'the Python library puts a section of the fourth level that follows one of the fifth a level too high',
   [('analyzer.py', """                        last_section = last_section['parent']
                        self._depth -= 1
""", """                        last_section = last_section['parent'] if self._depth != 5 else last_section['parent']['parent']
                        self._depth -= 1
""")],
   "expect(len(parse('# a\\n## b\\n### e\\n#### d\\n##### f\\n#### g').section('a').section('b').section('e').elements()), 2)")

BUGS = py.__globals__['BUGS'] + js.__globals__['BUGS']
